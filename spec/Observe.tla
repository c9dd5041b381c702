------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* Facts about values that are observed other than as a result value:       *)
(* statistics, printed output, samples, textual descriptions, the calls a   *)
(* cast makes.  Fact(f, v, ev, st) is "ok" or the name of the violated      *)
(* clause.  Statistics are decided for dice whose total weight stays below  *)
(* the modulus, so that the weights of this module are the exact ones.      *)
(***************************************************************************)
EXTENDS Api, BigNat

(* ---------------- texts (character codes) ---------------- *)
DigitChars(i) == LET d == Digits(i) IN [j \in DOMAIN d |-> 48 + d[j]]
IntChars(i) == IF i < 0 THEN <<45>> \o DigitChars(-i) ELSE DigitChars(i)
Pad(n, c) == [i \in 1..n |-> c]
(* decimal digits of a dyadic fraction with denominator 2, 4 or 8: at most three decimals, no trailing zero *)
RECURSIVE DropZeros(_)
DropZeros(q) == IF Len(q) > 1 /\ q[Len(q)] = 48 THEN DropZeros(SubSeq(q, 1, Len(q) - 1)) ELSE q
Dec3(k) == LET d == Digits(k) IN [j \in 1..(3 - Len(d)) |-> 48] \o [j \in DOMAIN d |-> 48 + d[j]]
NumChars(x) ==
  IF x[2] = 1 THEN IntChars(x[1])
  ELSE LET a == Abs(x[1])  ip == a \div x[2]  fr == ((a % x[2]) * 1000) \div x[2]
       IN (IF x[1] < 0 THEN <<45>> ELSE <<>>) \o DigitChars(ip) \o <<46>> \o DropZeros(Dec3(fr))
Printable(x) == x[2] \in {1, 2, 4, 8}

(* the text of a value *)
DieChars(d) ==
  LET t == DieText(d)
  IN (IF t.neg THEN <<45>> ELSE <<>>) \o (IF t.cnt > 1 THEN DigitChars(t.cnt) ELSE <<>>) \o <<100>>
     \o (CASE t.sides = "k" -> DigitChars(t.k) [] t.sides = "{?}" -> <<123, 63, 125>> [] t.sides = "{0..0}" -> <<123, 48, 46, 46, 48, 125>>)
ValueChars(v) ==
  CASE v.t = "d" -> DieChars(v)
    [] v.t = "s" -> <<123, 63, 125>>
    [] v.t = "b" -> IF v.sp THEN <<100, 123, 63, 125>> ELSE <<100, 123, 125>>
    [] v.t = "n" -> NumChars(v.v)
StrFact(v, o) ==
  IF o.k = "host" THEN "ok"                \* plain numbers, truth values, lists and ranges of the host language: not ours
  ELSE IF v.t = "n" THEN "ok"              \* a number given as a constant die
  ELSE IF v.t = "d" /\ o.k # "d" THEN "ok"
  ELSE IF o.s = ValueChars(v) THEN "ok" ELSE "description"

(* ---------------- text values ---------------- *)
(* terms in sorted order, a multiplicity other than 1 written before its text, the number last *)
RECURSIVE JoinTerms(_)
TermChars(t) == IF t[2] = One THEN t[1] ELSE NumChars(t[2]) \o <<42>> \o t[1]
JoinTerms(q) == IF q = <<>> THEN <<>> ELSE IF Len(q) = 1 THEN TermChars(q[1]) ELSE TermChars(q[1]) \o <<32, 43, 32>> \o JoinTerms(Tail(q))
TextChars(x) == IF HasNum(x) THEN JoinTerms(Tail(x[3])) \o <<32, 43, 32>> \o NumChars(x[3][1][2]) ELSE JoinTerms(x[3])
TextForms(x) == IF HasNum(x) THEN {TextChars(x), TextChars(x) \o <<46, 48>>} ELSE {TextChars(x)}      \* 21 or 21.0: both are the number
IsDigit(c) == c >= 48 /\ c <= 57
AllDigits(q) == q # <<>> /\ \A i \in DOMAIN q : IsDigit(q[i])
ReadsAsNumber(q) ==
  LET r == IF q # <<>> /\ q[1] = 45 THEN Tail(q) ELSE q
      dots == {i \in DOMAIN r : r[i] = 46}
  IN \/ AllDigits(r)
     \/ Cardinality(dots) = 1 /\ LET i == CHOOSE i \in dots : TRUE IN AllDigits(SubSeq(r, 1, i - 1)) /\ AllDigits(SubSeq(r, i + 1, Len(r)))
Quoted(q) == <<34>> \o q \o <<34>>
(* the ways an outcome may be listed: a text that reads as a number is quoted *)
Listed(x) == LET c == TextChars(x)
             IN IF ReadsAsNumber(c) THEN {Quoted(c)}
                ELSE IF \E i \in DOMAIN x[3] : ReadsAsNumber(x[3][i][1]) THEN TextForms(x) \cup {Quoted(c)}      \* a sum of such texts: not specified
                ELSE TextForms(x)
TextShown(x) == \A i \in DOMAIN x[3] : x[3][i][2][2] = 1       \* only whole multiplicities and numbers
(* rows: <<characters or <<>> for a number, number, probability>> *)
ListFact(v, o) ==
  LET T == SumOver(DOMAIN v.f, LAMBDA x : v.f[x])
      ok(x, r) == /\ IF IsText(x) THEN r.t = 1 /\ (~TextShown(x) \/ r.c \in Listed(x)) ELSE r.t = 0 /\ r.v = x
                  /\ ~Has(r.p, "bad") /\ BLeq(SDiff(r.p.s, BMul(r.p.m, BInt(T)), 1, BMul(BInt(v.f[x]), Ten12)), BMul(BInt(T), BInt(1000)))
  IN IF o.t # "ok" THEN "listing failed"
     ELSE IF T = 0 \/ T >= M THEN "ok"
     ELSE IF Len(o.rows) # Cardinality(DOMAIN v.f) THEN "number of outcomes listed"
     ELSE IF \E x \in DOMAIN v.f : ~\E i \in DOMAIN o.rows : ok(x, o.rows[i]) THEN "outcome not listed as it should be"
     ELSE IF \E i \in DOMAIN o.rows : \A x \in DOMAIN v.f : ~ok(x, o.rows[i]) THEN "something else listed"
     ELSE IF \E i, j \in DOMAIN o.rows : i < j /\ o.rows[i].t = 1 /\ o.rows[j].t = 0 THEN "a text before a number"
     ELSE "ok"
(* comparisons of all pairs of the elements q of a sequence: m[i][j] = <<eq, ne, lt, le, gt, ge, same hash>> as 0/1 *)
OrderFact(q, o) ==
  LET D == DOMAIN q
      m == o.m
  IN IF o.t # "ok" THEN "comparison failed"
     ELSE IF \E i, j \in D : (m[i][j][1] = 1) # (q[i] = q[j]) THEN "equality"
     ELSE IF \E i, j \in D : m[i][j][1] + m[i][j][2] # 1 THEN "eq and ne disagree"
     ELSE IF \E i, j \in D : m[i][j][1] = 1 /\ m[i][j][7] # 1 THEN "equal values with different hashes"
     ELSE IF \E i, j \in D : m[i][j][1] + m[i][j][3] + m[i][j][5] # 1 THEN "not exactly one of less, equal, greater"
     ELSE IF \E i, j \in D : m[i][j][4] + m[i][j][5] # 1 \/ m[i][j][6] + m[i][j][3] # 1 THEN "le or ge disagree"
     ELSE IF \E i, j \in D : m[i][j][3] # m[j][i][5] THEN "lt and gt disagree"
     ELSE IF \E i, j, k \in D : m[i][j][3] = 1 /\ m[j][k][3] = 1 /\ m[i][k][3] # 1 THEN "not transitive"
     ELSE IF \E i, j \in D : Comparable(q[i], q[j]) /\ (m[i][j][3] = 1) # NLess(q[i], q[j]) THEN "order"
     ELSE IF o.set # Cardinality({q[i] : i \in D}) THEN "distinct values in a set"
     ELSE "ok"

(* ---------------- statistics ---------------- *)
ExactTotal(f) == SumOver(DOMAIN f, LAMBDA x : f[x])
Sgn(i) == IF i < 0 THEN -1 ELSE 1
DenOf(f) == IF \E x \in DOMAIN f : x[2] = 8 THEN 8 ELSE IF \E x \in DOMAIN f : x[2] = 4 THEN 4 ELSE IF \E x \in DOMAIN f : x[2] = 2 THEN 2 ELSE 1
(* signed naturals <<sign, magnitude>>; x * D, and D * sum of w*x *)
SBInt(i) == <<Sgn(i), BInt(Abs(i))>>
SBAdd(a, b) == IF a[1] = b[1] THEN <<a[1], BAdd(a[2], b[2])>> ELSE IF BLess(a[2], b[2]) THEN <<b[1], BSub(b[2], a[2])>> ELSE <<a[1], BSub(a[2], b[2])>>
Scaled(x, D) == <<Sgn(x[1]), BMul(BInt(Abs(x[1])), BInt(D \div x[2]))>>
(* weights of any size: of the die as it was built, if the event gives them exactly, else those of the distribution *)
BigWeights(ev) == ev.e.op = "rv" /\ Has(ev.e, "B")
BSum(X, F(_)) == FoldSet(LAMBDA x, acc : BAdd(acc, F(x)), <<>>, X)
WeightsOf(f, ev) == IF BigWeights(ev) THEN TLCEval([x \in DOMAIN f |-> BSum({i \in DOMAIN ev.e.v : ev.e.v[i] = x}, LAMBDA i : ev.e.B[i])])
                    ELSE TLCEval([x \in DOMAIN f |-> BInt(f[x])])
BTotal(wts) == BSum(DOMAIN wts, LAMBDA x : wts[x])
StatOk(f, ev) == /\ \A x \in DOMAIN f : x[2] \in {1, 2, 4, 8} /\ Abs(x[1]) <= IntMax
                 /\ BigWeights(ev) \/ (ExactTotal(f) > 0 /\ ExactTotal(f) < M)
S1(wts) == FoldSet(LAMBDA x, acc : LET sx == Scaled(x, DenOf(wts)) IN SBAdd(acc, <<sx[1], BMul(wts[x], sx[2])>>), <<1, <<>> >>, DOMAIN wts)
(* |y - a/b| <= tol/10^12 where y is reported as <<sign, |y|*10^12>>; a >= 0 and b > 0 naturals of any size *)
Near12(y, a, b, tol) == BLeq(SDiff(y.s, BMul(b, y.m), 1, BMul(a, Ten12)), BMul(b, BInt(tol)))
MeanFact(wts, o) ==
  IF Has(o.y, "bad") THEN "mean"
  ELSE LET A == S1(wts)                            \* up to 10^-8 and a relative 10^-14
           b == BMul(BTotal(wts), BInt(DenOf(wts)))
           off == SDiff(o.y.s, BMul(b, o.y.m), A[1], BMul(A[2], Ten12))
       IN IF BLeq(BMul(off, BInt(100)), BAdd(BMul(b, BInt(1000000)), A[2])) THEN "ok" ELSE "mean"
(* variance * (T*D)^2 = T * sum w*(D x)^2 - (sum w*D*x)^2, in big numbers *)
VarNum(wts) ==
  LET D == DenOf(wts)
      Q == FoldSet(LAMBDA x, acc : LET m == Scaled(x, D)[2] IN BAdd(acc, BMul(wts[x], BMul(m, m))), <<>>, DOMAIN wts)
      s1 == S1(wts)[2]
  IN BSub(BMul(Q, BTotal(wts)), BMul(s1, s1))
(* |s^2 - VarNum/(T D)^2| <= tol/10^24 with tolerance 10^-9 * (1 + variance) *)
StdFact(wts, o) ==
  IF Has(o.y, "bad") \/ o.y.s < 0 THEN "deviation"
  ELSE LET TD == BMul(BTotal(wts), BInt(DenOf(wts)))
           TD2 == BMul(TD, TD)
           lhs == BMul(TD2, BMul(o.y.m, o.y.m))
           vn == VarNum(wts)
           rhs == BMul(vn, BMul(Ten12, Ten12))
           tol == BMul(BAdd(TD2, vn), BShift(<<1000>>, 3))      \* 10^15 of 10^24
       IN IF BLeq(BDiff(lhs, rhs), tol) THEN "ok" ELSE "deviation"
(* a cut-off c/4096 or c percent as <<num, den>>: which sets of outcomes may be missing *)
CutOk(f, removed, num, den) ==
  LET T == ExactTotal(f)
      kept == DOMAIN f \ removed
      rw == SumOver(removed, LAMBDA x : f[x])
      least == IF kept = {} THEN 0 ELSE f[CHOOSE x \in kept : \A y \in kept : f[x] <= f[y]]
      \* the boundary itself may go either way in floating point
      below(w) == BLeq(BMul(BInt(w), BInt(den)), BMul(BInt(T), BInt(num)))
      reaches(w) == BLeq(BMul(BInt(T), BInt(num)), BMul(BInt(w), BInt(den)))
  IN /\ \A x \in removed : \A y \in kept : f[x] <= f[y]
     /\ removed # {} => below(rw)
     /\ kept # {} /\ reaches(rw + least)
PairsFact(f, ev, o) ==
  LET cut == IF Has(ev, "cut") THEN ev.cut ELSE 0
      wts == WeightsOf(f, ev)
      BT == BTotal(wts)
      shown == {o.v[i] : i \in DOMAIN o.v}
  IN IF cut < 0 \/ cut >= 4096 THEN (IF o.t = "err" THEN "ok" ELSE "cut-off not rejected")
     ELSE IF o.t # "ok" THEN "pairs failed"
     ELSE IF ~StrictAsc(o.v) \/ ~(shown \subseteq DOMAIN f) THEN "pairs: outcomes"
     ELSE IF \E i \in DOMAIN o.v : Has(o.p[i], "bad") THEN "pairs: probability"
     ELSE IF \E i \in DOMAIN o.v : ~Near12(o.p[i], wts[o.v[i]], BT, 10000) THEN "pairs: probability"
     ELSE IF cut = 0 THEN (IF shown = DOMAIN f THEN "ok" ELSE "pairs: outcomes")
     ELSE IF CutOk(f, DOMAIN f \ shown, cut, 4096) THEN "ok" ELSE "cut-off"
CdfFact(f, o, st) ==
  LET cum == [x \in DOMAIN f |-> WNorm(SumOver({y \in DOMAIN f : ~NLess(x, y)}, LAMBDA y : f[y]))]
  IN IF o.t = "ok" /\ SameValue(DieOf(Canon(cum, st)), o.d) THEN "ok" ELSE "cumulative"

(* ---------------- printed output ---------------- *)
Dashes(k) == Pad(k, 45)
NameChars(ev) == IF Has(ev, "nm") THEN ev.nm \o <<32>> ELSE <<>>
(* r hundredths as a shortest decimal with at least one decimal digit: 350 -> 3.5, 300 -> 3.0, 123 -> 1.23 *)
Hund(sr) == LET r == sr[2] IN (IF sr[1] < 0 THEN <<45>> ELSE <<>>) \o DigitChars(r \div 100) \o <<46>>
            \o (IF r % 10 = 0 THEN <<48 + ((r % 100) \div 10)>> ELSE <<48 + ((r % 100) \div 10), 48 + (r % 10)>>)
Pct(r) == LET t == DigitChars(r \div 100) \o <<46, 48 + ((r % 100) \div 10), 48 + (r % 10)>> IN Pad(5 - Len(t), 32) \o t
(* |r/100 - a/b| <= 1/200 + 10^-9 *)
HundNear(sr, a, b) == BLeq(SDiff(sr[1], BMul(BMul(b, BInt(10000000)), BInt(sr[2])), a[1], BMul(a[2], BInt(1000000000))), BMul(b, BInt(5000001)))
StdNear(sr, wts) ==    \* (2r-1)^2 <= (200 s)^2 <= (2r+1)^2, up to 10^-6 relative room
  LET TD == BMul(BTotal(wts), BInt(DenOf(wts)))
      vn == VarNum(wts)
      v == BMul(BMul(vn, BInt(40000)), BInt(1000000))          \* (200 s)^2 * TD^2 * 10^6
      sq(k) == BMul(BMul(BInt(k), BInt(k)), BMul(BMul(TD, TD), BInt(1000000)))
      room == BAdd(BMul(TD, TD), vn)                           \* 10^-6 * (1 + variance)
  IN /\ sr[1] >= 0
     /\ BLeq(v, BAdd(sq(2 * sr[2] + 1), room))
     /\ sr[2] > 0 => BLeq(sq(2 * sr[2] - 1), BAdd(v, room))
OutWidth(ev, st) == IF Has(ev, "bw") THEN ev.bw ELSE st.width
ChanOk(ev, o, st) ==
  CASE ev.way = "ret" -> o.chan = "ret"
    [] ev.way = "fn" -> o.chan = "fn"
    [] ev.way = "def" -> o.chan = (CASE st.printer = 0 -> "def0" [] st.printer = 1 -> "def1" [] st.printer = 2 -> "def2" [] st.printer = 3 -> "def3")
BlankText(ev, st) == NameChars(ev) \o <<10>> \o Dashes(OutWidth(ev, st) + 8)
RowText(x, w, r) == Pad(w - Len(NumChars(x)), 32) \o NumChars(x) \o <<58, 32>> \o Pct(r[1]) \o <<32, 32>> \o Pad(r[2], 9608)
(* the rows shown are vs (ascending); rs the witnesses <<hundredths of a percent, bar length>> *)
RowsText(vs, rs, wid) == FlattenSeq([i \in DOMAIN vs |-> <<10>> \o RowText(vs[i], wid, rs[i])])
OutputDie(f, ev, o, st) ==
  LET wts == WeightsOf(f, ev)
      T == BTotal(wts)
      width == OutWidth(ev, st)
      head == NameChars(ev) \o Hund(o.w.mean) \o <<32, 177, 32>> \o Hund(o.w.std)
      cut == IF Has(ev, "cut") THEN ev.cut ELSE 0
      rs == o.w.rows
      n == Len(rs)
      all == Sorted(DOMAIN f)
      Lens(vs) == {Len(NumChars(vs[i])) : i \in DOMAIN vs}
      Widest(vs) == CHOOSE k \in Lens(vs) : \A j \in Lens(vs) : j <= k
      RowsFit(vs) ==
        LET wid == Widest(vs)
            blocks == IF width > wid THEN width - wid ELSE 0
        IN /\ o.text = head \o RowsText(vs, rs, wid) \o <<10>> \o Dashes(width + 8)
           /\ \A i \in DOMAIN vs :
                /\ HundNear(<<1, rs[i][1]>>, <<1, BMul(wts[vs[i]], BInt(100))>>, T)
                /\ BLeq(BMul(BDiff(BMul(T, BInt(2 * rs[i][2])), BMul(wts[vs[i]], BInt(2 * blocks))), BInt(1000000)), BMul(T, BInt(1000001)))    \* half a block, and rounding
  IN IF ~HundNear(o.w.mean, S1(wts), BMul(T, BInt(DenOf(wts)))) THEN "output: mean"
     ELSE IF o.w.mean[2] = 0 /\ o.w.mean[1] < 0 /\ S1(wts)[1] >= 0 THEN "output: mean"
     ELSE IF ~StdNear(o.w.std, wts) THEN "output: deviation"
     ELSE IF Has(ev, "nopdf") THEN (IF o.text = head THEN "ok" ELSE "output: text")
     ELSE IF cut = 0 THEN (IF n = Len(all) /\ RowsFit(all) THEN "ok" ELSE "output: rows")
     ELSE IF \E K \in SUBSET DOMAIN f : Cardinality(K) = n /\ n > 0 /\ CutOk(f, DOMAIN f \ K, cut, 100) /\ RowsFit(Sorted(K)) THEN "ok" ELSE "output: cut rows"
OutputFact(v, ev, o, st) ==
  LET f == IF v.t = "n" THEN ConstDist(v.v) ELSE IF v.t = "s" THEN Uniform(v.q) ELSE v.f
  IN IF o.t # "ok" THEN "output failed"
     ELSE IF ~ChanOk(ev, o, st) THEN "output: where it is printed"
     ELSE IF v.t \in {"b", "none"} \/ (v.t = "s" /\ v.q = <<>>) THEN (IF o.text = BlankText(ev, st) THEN "ok" ELSE "output: blank")
     ELSE IF (\E x \in DOMAIN f : ~Printable(x) \/ Abs(x[1]) > 4000000) \/ ~StatOk(f, ev) THEN "ok"
     ELSE OutputDie(f, ev, o, st)

(* ---------------- sampling ---------------- *)
RECURSIVE ISqrt(_, _, _)
ISqrt(k, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= k THEN ISqrt(k, m, hi) ELSE ISqrt(k, lo, m)
Root(k) == ISqrt(k, 0, 46340) + 1                       \* at least the square root
SampleFact(v, ev, o) ==
  LET g == IF v.t = "n" THEN ConstDist(v.v) ELSE IF v.t = "s" THEN Uniform(v.q) ELSE v.f
      wts == WeightsOf(g, ev)
      BT == BTotal(wts)
      \* weights of any size: the event names small weights in (nearly) the same proportion
      f == IF ~BigWeights(ev) THEN g ELSE [x \in DOMAIN g |-> LET i == CHOOSE i \in DOMAIN ev.e.v : ev.e.v[i] = x IN ev.share[i]]
      TS == ExactTotal(f)
      fair == \A x \in DOMAIN f : BLeq(BMul(BDiff(BMul(wts[x], BInt(TS)), BMul(BT, BInt(f[x]))), BInt(1000000)), BT)
      T == TS
      n == o.len
      want == IF ev.count < 0 THEN ev.single ELSE ev.count
      cnt(x) == IF \E i \in DOMAIN o.v : o.v[i] = x THEN o.c[CHOOSE i \in DOMAIN o.v : o.v[i] = x] ELSE 0
      sumsq == SumOver(DOMAIN f, LAMBDA x : f[x] * f[x])
  IN IF o.t # "ok" THEN "sampling failed"
     ELSE IF o.shape # 1 \/ n # want THEN "sample count"
     ELSE IF BigWeights(ev) /\ ~fair THEN "the event's shares are wrong"
     ELSE IF ~({o.v[i] : i \in DOMAIN o.v} \subseteq {x \in DOMAIN wts : wts[x] # <<>>}) THEN "impossible outcome sampled"
     ELSE IF Has(ev, "reps") THEN
          \* the same few samples asked for many times: the chance of the same counts in every one of them is below 2^-50
          IF \E i \in DOMAIN o.per : Len(o.per[i]) # n \/ ~({o.per[i][j] : j \in DOMAIN o.per[i]} \subseteq {x \in DOMAIN wts : wts[x] # <<>>}) THEN "impossible outcome sampled"
          ELSE IF TS > 100 \/ n < TS \/ Cardinality(Support(f)) < 2 \/ Len(o.per) < 50 THEN "ok"
          ELSE IF \A i \in DOMAIN o.per : o.per[i] = o.per[1] THEN "dealt, not sampled" ELSE "ok"
     ELSE IF n < 1000 THEN "ok"
     \* 7 standard deviations around the expected count, T <= 500 so that all products fit
     ELSE IF T > 500 THEN "ok"
     ELSE IF \E x \in DOMAIN f : Abs(cnt(x) * T - n * f[x]) > 7 * Root(n) * Root(f[x] * (T - f[x])) + T THEN "frequencies"
     \* independence: consecutive equal outcomes, probability q = sumsq / T^2, generous 10 standard deviations
     ELSE IF T <= 120 /\ Abs(o.same * T * T - (n - 1) * sumsq) > 10 * Root(n) * T * T THEN "dependent samples"
     ELSE "ok"

(* ---------------- the calls a cast makes ---------------- *)
(* every combination of outcomes exactly once, those of weight zero included, and nothing else *)
SameArgs(a, o) == Len(a) = Len(o) /\ \A i \in DOMAIN a : SameValue(a[i], o[i])
CallsFact(fn, vs, calls, st) ==
  LET tys == IF fn.dec \in {"cast", "type"} THEN fn.ty ELSE [i \in DOMAIN fn.ty |-> "-"]
      cs == Calls(tys, vs, st, Len(tys))
      blank == BlankArg(tys, vs)
  IN IF \E i \in DOMAIN vs : vs[i].t \in {"err", "any", "none"} THEN "ok"
     ELSE IF blank THEN (IF calls = <<>> THEN "ok" ELSE "called although an argument is blank")
     ELSE IF Len(calls) > Len(cs) THEN "too many calls"
     ELSE IF \E j \in DOMAIN cs : Cardinality({i \in DOMAIN calls : SameArgs(cs[j][1], calls[i])}) # 1 THEN "a roll is not passed exactly once"
     ELSE IF \E i \in DOMAIN calls : \A j \in DOMAIN cs : ~SameArgs(cs[j][1], calls[i]) THEN "called with wrong arguments"
     ELSE IF \E i, k \in DOMAIN calls : i < k /\ \E j \in DOMAIN cs : SameArgs(cs[j][1], calls[i]) /\ SameArgs(cs[j][1], calls[k]) THEN "called twice"
     ELSE "ok"

Fact(f, v, ev, st) ==
  LET o == ev.o
  IN IF Stop(v) THEN "ok"
     ELSE CASE f = "str" -> IF o.t # "ok" THEN "no description" ELSE IF v.t = "none" THEN "ok" ELSE StrFact(v, o)
            [] f \in {"mean", "std", "pairs", "cdf"} ->
                 IF v.t # "d" THEN "ok" ELSE IF ~StatOk(v.f, ev) THEN "ok"
                 ELSE IF f = "pairs" THEN PairsFact(v.f, ev, o)
                 ELSE IF o.t # "ok" THEN "statistics failed"
                 ELSE (CASE f = "mean" -> MeanFact(WeightsOf(v.f, ev), o) [] f = "std" -> StdFact(WeightsOf(v.f, ev), o) [] f = "cdf" -> CdfFact(v.f, o, st))
            [] f = "output" -> OutputFact(v, ev, o, st)
            [] f = "list" -> IF v.t = "d" THEN ListFact(v, o) ELSE "ok"
            [] f = "order" -> IF v.t = "s" THEN OrderFact(v.q, o) ELSE "ok"
            [] f = "text" -> IF v.t # "n" THEN "ok" ELSE IF ~IsText(v.v) \/ ~TextShown(v.v) THEN "ok"
                             ELSE IF o.t = "ok" /\ o.s \in TextForms(v.v) /\ o.fm = o.s THEN "ok" ELSE "text shown"
            [] f = "sample" -> IF v.t \in {"n", "s", "d"} THEN SampleFact(v, ev, o) ELSE "ok"
            [] OTHER -> "unknown fact"
=============================================================================
