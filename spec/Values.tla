------------------------------ MODULE Values ------------------------------
(***************************************************************************)
(* The values a user works with and the operators on them.                  *)
(*   [t |-> "n", v]                 a number                                *)
(*   [t |-> "s", q]                 a sequence                              *)
(*   [t |-> "d", f, n, src, l, r]   a die: distribution f; a pool of n      *)
(*                                  copies of src; l, r: its description    *)
(*   [t |-> "b", sp]                a blank (sp: the absorbing kind)        *)
(*   None, Err, Unk                 no result / an error / not specified    *)
(* st is the settings record (module Settings).                             *)
(***************************************************************************)
EXTENDS Dist

None == [t |-> "none"]
Err == [t |-> "err"]
Unk == [t |-> "any"]
N(x) == IF x = ANYN THEN Unk ELSE IF x = ERRN THEN Err ELSE [t |-> "n", v |-> x]
S(q) == [t |-> "s", q |-> q]
Blank == [t |-> "b", sp |-> FALSE]
SBlank == [t |-> "b", sp |-> TRUE]
IsT(v, t) == v.t = t
Stop(v) == v.t \in {"err", "any"}

UnknownRhs == <<"?", 0>>           \* description part that is not plain sides
EmptyRhs == <<"{}", 0>>
Sides(k) == <<"k", k>>

(* every die passes through here: settings may truncate outcomes and drop impossible ones *)
Canon(f, st) ==
  LET g == IF st.trunc THEN MapDist(f, NTrunc) ELSE f
      h == IF st.ign /\ \E v \in DOMAIN g : g[v] = 0 THEN TLCEval([v \in Support(g) |-> g[v]]) ELSE g
  IN IF DOMAIN h = {} THEN Zeroish ELSE h
DieOf(f) == [t |-> "d", f |-> f, n |-> 1, src |-> f, l |-> 1, r |-> UnknownRhs]
Die(f, st) ==
  IF ERRN \in DOMAIN f THEN Err
  ELSE IF ANYN \in DOMAIN f THEN Unk
  ELSE DieOf(Canon(f, st))

SumQ(q) == FoldLeft(NAdd, Zero, q)

(* -------- sequences -------- *)
RECURSIVE FlatVals(_)
FlatVals(vs) ==    \* vs: sequence of values; nested sequences and dice are opened in place, blanks dropped
  IF vs = <<>> THEN <<>>
  ELSE LET h == Head(vs)
       IN (CASE h.t = "n" -> <<h.v>>
             [] h.t = "s" -> h.q
             [] h.t = "d" -> Sorted(DOMAIN h.f)
             [] OTHER -> <<>>) \o FlatVals(Tail(vs))
MkSeq(vs) ==
  IF \E i \in DOMAIN vs : vs[i].t = "err" THEN Err
  ELSE IF \E i \in DOMAIN vs : vs[i].t \in {"any", "none"} THEN Unk
  ELSE IF \E i \in DOMAIN vs : vs[i].t = "d" /\ ~OrderKnown(DOMAIN vs[i].f) THEN Unk
  ELSE S(FlatVals(vs))

AtSeq(q, k) == IF k >= 1 /\ k <= Len(q) THEN q[k] ELSE Zero       \* k an integer
AllInt(q) == \A i \in DOMAIN q : q[i][2] = 1
SelSum(idx, q) == SumQ([i \in DOMAIN idx |-> AtSeq(q, idx[i][1])])  \* idx: integer elements

CountCmp(op, q, x) == I(Cardinality({i \in DOMAIN q : NOp(op, q[i], x) = One}))
CmpSeq(op, p, q) ==
  LET m == IF Len(p) < Len(q) THEN Len(p) ELSE Len(q)
      both == \A i \in 1..m : NOp(op, p[i], q[i]) = One
      padOk == CASE Len(p) = Len(q) -> TRUE
                 [] Len(p) < Len(q) -> op \in {"lt", "le"}      \* -inf on the left
                 [] Len(p) > Len(q) -> op \in {"gt", "ge"}
  IN B(both /\ padOk)
CmpSeqs(op, p, q) == IF op = "ne" THEN B(CmpSeq("eq", p, q) # One) ELSE CmpSeq(op, p, q)
AnyIn(q) == \E i \in DOMAIN q : IsSpecial(q[i]) \/ ~(Dyadic(q[i]) \/ IsText(q[i]))
MixedTexts(p, q) == \E i \in DOMAIN p, j \in DOMAIN q : ~Comparable(p[i], q[j])

(* -------- dice: mixtures of results -------- *)
(* rs: sequence of <<value, weight>>; missing results and blanks are left out with their weight *)
MixResults(rs, st) ==
  LET kept == SelectSeq(rs, LAMBDA r : r[1].t \notin {"b", "none"})
      asD(v) == IF v.t = "n" THEN ConstDist(v.v) ELSE v.f
  IN IF \E i \in DOMAIN rs : rs[i][1].t = "err" THEN Err
     ELSE IF \E i \in DOMAIN rs : rs[i][1].t = "any" THEN Unk
     ELSE IF kept = <<>> THEN Blank
     ELSE IF \E i \in DOMAIN kept : kept[i][1].t \notin {"n", "d"} THEN Unk
     ELSE IF \E i \in DOMAIN kept : kept[i][1].t = "d" /\ Support(kept[i][1].f) = {} THEN Unk
     ELSE Die(Mix([i \in DOMAIN kept |-> asD(kept[i][1])], [i \in DOMAIN kept |-> kept[i][2]]), st)

(* -------- blanks -------- *)
NegOf(v, st) ==
  CASE v.t = "n" -> N(NNeg(v.v))
    [] v.t = "d" -> Die(MapDist(v.f, NNeg), st)
    [] v.t = "b" -> v
    [] v.t = "s" -> N(NNeg(SumQ(v.q)))
    [] OTHER -> Unk
One1 == N(One)
BlankOp(op, a, b, st) ==
  IF a.t = "b" THEN       \* blank on the left decides
    CASE op \in {"mul", "floordiv", "truediv", "mod", "pow"} -> a
      [] op \in {"add", "sub"} -> IF a.sp THEN a ELSE IF op = "add" THEN b ELSE NegOf(b, st)
      [] op \in CmpOps -> IF a.sp THEN One1 ELSE a
      [] op = "or" -> IF a.sp THEN One1 ELSE IF b.t = "b" THEN a ELSE b
      [] op = "and" -> IF a.sp THEN One1 ELSE a
  ELSE LET x == IF a.t = "s" THEN N(SumQ(a.q)) ELSE a
       IN CASE op \in {"mul", "floordiv", "truediv", "mod", "pow"} -> b
            [] op \in {"add", "sub"} -> IF b.sp THEN b ELSE x
            [] op \in CmpOps -> IF b.sp THEN One1 ELSE b
            [] op = "or" -> IF b.sp THEN One1 ELSE x
            [] op = "and" -> IF b.sp THEN One1 ELSE b

(* -------- binary operators -------- *)
BoolNum(op, x, y) == NOp(op, x, y)
Scalar(v) == IF v.t = "s" THEN SumQ(v.q) ELSE v.v
BinOp(op, a, b, st) ==
  IF a.t = "err" \/ b.t = "err" THEN Err
  ELSE IF a.t \in {"any", "none"} \/ b.t \in {"any", "none"} THEN Unk
  ELSE IF a.t = "b" \/ b.t = "b" THEN BlankOp(op, a, b, st)
  ELSE IF a.t = "d" /\ b.t = "d" THEN Die(Conv(op, a.f, b.f), st)
  ELSE IF a.t = "d" THEN Die(MapDist(a.f, LAMBDA x : NOp(op, x, Scalar(b))), st)
  ELSE IF b.t = "d" THEN Die(MapDist(b.f, LAMBDA y : NOp(op, Scalar(a), y)), st)
  ELSE IF op \in CmpOps /\ a.t = "s" /\ b.t = "s" THEN (IF AnyIn(a.q) \/ AnyIn(b.q) \/ (op \notin {"eq", "ne"} /\ MixedTexts(a.q, b.q)) THEN Unk ELSE N(CmpSeqs(op, a.q, b.q)))
  ELSE IF op \in CmpOps /\ a.t = "s" THEN (IF AnyIn(a.q) \/ AnyIn(<<b.v>>) \/ (op \notin {"eq", "ne"} /\ MixedTexts(a.q, <<b.v>>)) THEN Unk ELSE N(CountCmp(op, a.q, b.v)))
  ELSE IF op \in CmpOps /\ b.t = "s" THEN (IF AnyIn(b.q) \/ AnyIn(<<a.v>>) \/ (op \notin {"eq", "ne"} /\ MixedTexts(b.q, <<a.v>>)) THEN Unk ELSE N(CountCmp(FlipOp(op), b.q, a.v)))
  ELSE N(NOp(op, Scalar(a), Scalar(b)))

(* -------- unary operators -------- *)
UnOp(op, a, st) ==
  IF Stop(a) THEN a
  ELSE IF a.t = "none" THEN Unk
  ELSE CASE op = "neg" -> (IF a.t = "s" THEN Unk ELSE NegOf(a, st))
         [] op = "pos" -> (IF a.t = "s" THEN Unk ELSE a)
         [] op = "not" -> (CASE a.t = "b" -> (IF a.sp THEN One1 ELSE a)
                             [] a.t = "s" -> N(B(SumQ(a.q) = Zero))
                             [] a.t = "n" -> N(B(a.v = Zero))
                             [] a.t = "d" -> IF DOMAIN a.f = {Zero} THEN Die(ConstDist(One), st)
                                             ELSE IF Support(a.f) = {Zero} THEN Unk
                                             ELSE Die(Zeroish, st))
         [] op \in {"abs", "floor", "ceil", "trunc"} ->
              LET F(x) == CASE op = "abs" -> NAbs(x) [] op = "floor" -> NFloor(x) [] op = "ceil" -> NCeil(x) [] op = "trunc" -> NTrunc(x)
              IN (CASE a.t = "b" -> a [] a.t = "s" -> Unk [] a.t = "n" -> N(F(a.v)) [] a.t = "d" -> Die(MapDist(a.f, F), st))
         [] op = "len" -> (CASE a.t = "b" -> N(B(a.sp)) [] a.t = "s" -> N(I(Len(a.q))) [] a.t = "d" -> N(I(a.n))
                             [] a.t = "n" -> (IF a.v[2] = 1 THEN N(I(Len(Digits(Abs(a.v[1]))))) ELSE Unk))
         [] op = "bool" -> (CASE a.t \in {"b", "d"} -> Err [] a.t = "n" -> N(B(a.v # Zero)) [] OTHER -> Unk)
RoundOp(a, k, st) ==
  IF Stop(a) THEN a ELSE IF a.t = "none" \/ k.t # "n" THEN Unk ELSE IF k.v[2] # 1 THEN Unk
  ELSE CASE a.t = "b" -> a [] a.t = "s" -> Unk [] a.t = "n" -> N(NRound(a.v, k.v[1])) [] a.t = "d" -> Die(MapDist(a.f, LAMBDA x : NRound(x, k.v[1])), st)

(* -------- rolling -------- *)
ToDie(v, st) ==    \* a number as a constant die, a sequence as a die of its elements
  CASE v.t = "n" -> Die(ConstDist(v.v), st)
    [] v.t = "s" -> IF v.q = <<>> THEN Die(Zeroish, st) ELSE Die(Uniform(v.q), st)
    [] v.t = "d" -> v
    [] OTHER -> Unk
SidesDie(k, st) ==
  IF k > 0 THEN Die([x \in {I(i) : i \in 1..k} |-> 1], st)
  ELSE IF k = 0 THEN Die(Zeroish, st)
  ELSE Die([x \in {I(i) : i \in k..(-1)} |-> 1], st)
RollInt(k, die, st) ==
  IF k = 1 THEN die
  ELSE IF k = 0 THEN Die(Zeroish, st)
  ELSE IF k < 0 THEN (IF k = -1 THEN NegOf(die, st) ELSE Die(MapDist(Canon(NFold(-k, die.f), st), NNeg), st))
  ELSE LET g == NFold(k, die.f) IN IF ANYN \in DOMAIN g THEN Unk ELSE [Die(g, st) EXCEPT !.n = k, !.src = die.f]
Describe(n, d) ==
  LET l == CASE n.t = "n" -> n.v [] n.t = "s" -> SumQ(n.q) [] OTHER -> Zero
      r == CASE d.t = "n" -> Sides(d.v[1])
             [] d.t = "s" -> UnknownRhs
             [] d.t = "d" -> IF d.l = 1 /\ d.r[1] = "k" THEN d.r ELSE UnknownRhs
             [] OTHER -> UnknownRhs
  IN <<l, r>>
Roll(n0, d0, st) ==
  LET n == IF n0.t = "n" THEN N(NCeil(n0.v)) ELSE n0
      d == IF d0.t = "n" /\ IsText(d0.v) THEN Unk ELSE IF d0.t = "n" /\ d0.v[2] # 1 THEN S(<<d0.v>>) ELSE d0
      die == IF d.t = "n" THEN SidesDie(d.v[1], st) ELSE ToDie(d, st)
      cnt == CASE n.t = "n" -> n.v [] n.t = "s" -> SumQ(n.q) [] OTHER -> Zero
      res == IF n.t = "d"
             THEN IF \E v \in DOMAIN n.f : v[2] # 1 THEN Err
                  ELSE LET vs == Sorted(DOMAIN n.f)
                           rolls == [i \in DOMAIN vs |-> RollInt(vs[i][1], die, st)]
                       IN IF \E i \in DOMAIN rolls : Stop(rolls[i]) THEN Unk
                          ELSE IF Support(die.f) = {} \/ Support(n.f) = {} THEN Unk
                          ELSE Die(Mix([i \in DOMAIN vs |-> rolls[i].f], [i \in DOMAIN vs |-> n.f[vs[i]]]), st)
             ELSE IF cnt[2] # 1 THEN Err
             ELSE RollInt(cnt[1], die, st)
      desc == Describe(n, d)
  IN IF n0.t = "err" \/ d0.t = "err" THEN Err
     ELSE IF n.t \in {"any", "none"} \/ d.t \in {"any", "none"} THEN Unk
     ELSE IF d.t = "b" THEN Blank
     ELSE IF n.t = "b" THEN SBlank
     ELSE IF d.t = "s" /\ d.q = <<>> THEN Blank
     ELSE IF die.t # "d" THEN die
     ELSE IF res.t # "d" THEN res
     ELSE [res EXCEPT !.l = desc[1][1], !.r = desc[2]]

(* the text of a value (module Texts turns it into characters): <<sign, count, sides>> *)
DieText(d) ==
  IF d.r[1] = "k"
  THEN LET z == d.l = 0 \/ d.r[2] = 0
           neg == ~z /\ ((d.l < 0) # (d.r[2] < 0))
       IN [neg |-> neg, cnt |-> IF Abs(d.l) > 1 THEN Abs(d.l) ELSE 1, sides |-> IF z THEN "{0..0}" ELSE "k", k |-> Abs(d.r[2])]
  ELSE IF d.l = 0 THEN [neg |-> FALSE, cnt |-> 1, sides |-> "{0..0}", k |-> 0]
  ELSE [neg |-> FALSE, cnt |-> IF Abs(d.l) > 1 THEN Abs(d.l) ELSE 1, sides |-> "{?}", k |-> 0]

(* -------- position selection -------- *)
(* positions ps (integers) of a pool, counted from the highest *)
SelectPool(d, ps, st) ==
  LET inR == SelectSeq(ps, LAMBDA p : p >= 1 /\ p <= d.n)
  IN IF ~OrderKnown(DOMAIN d.src) THEN Unk
     ELSE IF Len(ps) = 1
     THEN IF inR = <<>> THEN N(Zero) ELSE Die(KthHighest(d.src, d.n, ps[1]), st)
     ELSE IF d.n = 1
     THEN Die(MapDist(d.src, LAMBDA x : SumQ([i \in DOMAIN inR |-> x])), st)
     ELSE LET R == Rolls(d.src, d.n)
              tot == TLCEval([r \in R |-> SumQ([i \in DOMAIN inR |-> r[1][inR[i]]])])
              O == {tot[r] : r \in R}
          IN Die([o \in O |-> WNorm(SumOver({r \in R : tot[r] = o}, LAMBDA r : r[2]))], st)
FromHigh(ps, d, st) == IF st.order = "lo" THEN [i \in DOMAIN ps |-> d.n + 1 - ps[i]] ELSE ps
Ints(q) == [i \in DOMAIN q |-> q[i][1]]
At(a, b, st) ==
  IF a.t = "err" \/ b.t = "err" THEN Err
  ELSE IF a.t \in {"any", "none"} \/ b.t \in {"any", "none"} THEN Unk
  ELSE IF a.t \in {"d", "b"} THEN Err
  ELSE LET idx == IF a.t = "n" THEN <<a.v>> ELSE a.q
       IN CASE b.t = "b" -> IF ~b.sp THEN b ELSE IF a.t = "n" THEN (IF a.v = One THEN b ELSE N(Zero)) ELSE Unk
            [] b.t = "d" -> IF ~AllInt(idx) THEN Err ELSE SelectPool(b, FromHigh(Ints(idx), b, st), st)
            [] b.t = "s" -> IF a.t = "n" THEN (IF AllInt(idx) THEN N(AtSeq(b.q, a.v[1])) ELSE Unk)
                            ELSE IF ~AllInt(idx) THEN Err ELSE N(SelSum(idx, b.q))
            [] b.t = "n" -> IF ~AllInt(idx) \/ b.v[2] # 1 \/ b.v[1] < 0 THEN Unk
                            ELSE LET q == [i \in DOMAIN Digits(b.v[1]) |-> I(Digits(b.v[1])[i])]
                                 IN N(SelSum(idx, q))
=============================================================================
