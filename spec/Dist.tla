------------------------------- MODULE Dist -------------------------------
(***************************************************************************)
(* Dice as weight functions.  A distribution is a function from outcomes to *)
(* weights.  Exact weights are unbounded naturals; here a weight is 0 (an   *)
(* impossible outcome) or a residue in 1..M of a positive weight modulo the *)
(* prime M (M itself stands for residue 0).  Equality of distributions is   *)
(* decided projectively (cross-multiplying with a reference outcome), so a  *)
(* correct result is always accepted, and a wrong weight escapes with       *)
(* probability about 1/M per outcome (M is chosen per run from the seed).   *)
(***************************************************************************)
EXTENDS Num, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC
CONSTANT M

W(k) == IF k = 0 THEN 0 ELSE ((k - 1) % M) + 1         \* weight of an exact natural
WNorm(s) == IF s = 0 THEN 0 ELSE ((s - 1) % M) + 1
WAdd(a, b) == WNorm(a + b)
WMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE LET r == (a * b) % M IN IF r = 0 THEN M ELSE r
RECURSIVE WPow(_, _)
WPow(a, k) == IF k = 0 THEN 1 ELSE WMul(a, WPow(a, k - 1))

SumOver(S, f(_)) == MapThenSumSet(f, S)                \* fewer than 46340 terms of at most M
Total(f) == WNorm(SumOver(DOMAIN f, LAMBDA x : f[x]))

ConstDist(x) == [v \in {x} |-> 1]
Zeroish == ConstDist(Zero)

(* outcome lists (sequences of <<outcome, weight>>) grouped into a distribution *)
Group(ps) == LET D == {ps[i][1] : i \in DOMAIN ps}
             IN TLCEval([v \in D |-> WNorm(SumOver({i \in DOMAIN ps : ps[i][1] = v}, LAMBDA i : ps[i][2]))])
Uniform(q) == Group([i \in DOMAIN q |-> <<q[i], 1>>])

(* apply a unary map to every outcome *)
MapDist(f, Op(_)) ==
  LET g == TLCEval([v \in DOMAIN f |-> Op(v)])
      R == {g[v] : v \in DOMAIN f}
  IN TLCEval([r \in R |-> WNorm(SumOver({v \in DOMAIN f : g[v] = r}, LAMBDA v : f[v]))])

(* apply a binary operation to every pair of independent outcomes *)
ConvGen(f, g, Op(_, _)) ==
  LET rows == TLCEval([a \in DOMAIN f |-> MapDist(g, LAMBDA b : Op(a, b))])
      R == TLCEval(UNION {DOMAIN rows[a] : a \in DOMAIN f})
  IN TLCEval([r \in R |-> WNorm(SumOver({a \in DOMAIN f : r \in DOMAIN rows[a]}, LAMBDA a : WMul(f[a], rows[a][r])))])

(* is the order of these outcomes specified? *)
OrderKnown(S) == (\E v \in S : IsText(v) /\ HasNum(v)) => \A x, y \in S : Comparable(x, y)
HasText(f) == \E v \in DOMAIN f : IsText(v)
ConvAdd(f, g) ==
  IF HasText(f) \/ HasText(g) THEN ConvGen(f, g, NAdd) ELSE
  LET R == TLCEval({NAdd(a, b) : a \in DOMAIN f, b \in DOMAIN g})
  IN IF \E r \in R : IsSpecial(r) THEN [r \in R |-> 1]
     ELSE TLCEval([r \in R |-> WNorm(SumOver({a \in DOMAIN f : NSub(r, a) \in DOMAIN g},
                                             LAMBDA a : WMul(f[a], g[NSub(r, a)])))])
Conv(op, f, g) == IF op = "add" THEN ConvAdd(f, g)
                  ELSE IF op = "sub" THEN ConvAdd(f, MapDist(g, NNeg))
                  ELSE ConvGen(f, g, LAMBDA a, b : NOp(op, a, b))

(* n-fold sum by plain repeated addition, n >= 1 *)
RECURSIVE NFold(_, _)
NFold(n, f) == IF n = 1 THEN f ELSE ConvAdd(NFold(n - 1, f), f)

(* mixture of distributions cs[i] with weights ws[i] (already residues) *)
Mix(cs, ws) ==
  LET tot == TLCEval([i \in DOMAIN cs |-> Total(cs[i])])
      pre[i \in 0..Len(cs)] == IF i = 0 THEN 1 ELSE WMul(pre[i-1], tot[i])
      suf[i \in 1..(Len(cs)+1)] == IF i = Len(cs) + 1 THEN 1 ELSE WMul(suf[i+1], tot[i])
      sc == TLCEval([i \in DOMAIN cs |-> WMul(ws[i], WMul(pre[i-1], suf[i+1]))])
      D == TLCEval(UNION {DOMAIN cs[i] : i \in DOMAIN cs})
  IN TLCEval([v \in D |-> WNorm(SumOver({i \in DOMAIN cs : v \in DOMAIN cs[i]}, LAMBDA i : WMul(sc[i], cs[i][v])))])

(* outcomes in ascending order *)
Sorted(S) == SetToSortSeq(S, NLess)
SortedQ(q) == SortSeq(q, NLess)
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]

(* binomial coefficients modulo M, rows 0..BinMax *)
BinMax == 160
RECURSIVE BinRows(_)
BinRows(n) ==
  IF n = 0 THEN << <<1>> >>
  ELSE LET pre == TLCEval(BinRows(n - 1))
           last == pre[n]
       IN Append(pre, TLCEval([j \in 1..(n + 1) |-> IF j = 1 \/ j = n + 1 THEN 1 ELSE WAdd(last[j - 1], last[j])]))
BinTable == BinRows(BinMax)
Bin(n, k) == BinTable[n + 1][k + 1]

Powers(a, n) == LET p[i \in 0..n] == IF i = 0 THEN 1 ELSE WMul(p[i-1], a) IN TLCEval(p)

(* distribution of the k-th highest of n independent copies of f, 1 <= k <= n <= BinMax: exactly g copies above x *)
(* and e copies at x with g < k <= g + e                                                                          *)
KthHighest(f, n, k) ==
  [x \in DOMAIN f |->
     LET gt == Powers(WNorm(SumOver({y \in DOMAIN f : NLess(x, y)}, LAMBDA y : f[y])), n)
         lt == Powers(WNorm(SumOver({y \in DOMAIN f : NLess(y, x)}, LAMBDA y : f[y])), n)
         eq == Powers(f[x], n)
     IN WNorm(SumOver(0..(k-1), LAMBDA g :
              WMul(WMul(Bin(n, g), gt[g]),
                   WNorm(SumOver((k-g)..(n-g), LAMBDA e : WMul(Bin(n - g, e), WMul(eq[e], lt[n-g-e])))))))]

(* all rolls of n copies of f sorted highest first, each once, with its weight: a set of <<roll, weight>> *)
RECURSIVE RollsFrom(_, _, _, _)
RollsFrom(asc, f, n, i) ==   \* rolls using only the i lowest outcomes; <<roll, weight / multinomial left factor>>
  IF n = 0 THEN {<< <<>>, 1>>}
  ELSE IF i = 0 THEN {}
  ELSE UNION { LET c == WMul(Bin(n, e), WPow(f[asc[i]], e))
               IN {<< [j \in 1..e |-> asc[i]] \o r[1], WMul(c, r[2])>> : r \in RollsFrom(asc, f, n - e, i - 1)} : e \in 0..n }
Rolls(f, n) == LET asc == TLCEval(Sorted(DOMAIN f)) IN TLCEval(RollsFrom(asc, f, n, Len(asc)))

(* the same from first principles: every ordered roll, sorted (small n only; checked against Rolls by MCDist) *)
RECURSIVE NTuples(_, _)
NTuples(S, n) == IF n = 0 THEN {<<>>} ELSE {Append(t, x) : t \in NTuples(S, n - 1), x \in S}
RollsNaive(f, n) ==
  LET T == NTuples(DOMAIN f, n)
      srt == TLCEval([t \in T |-> Rev(SortedQ(t))])
      R == {srt[t] : t \in T}
      wt(t) == LET w[i \in 0..n] == IF i = 0 THEN 1 ELSE WMul(w[i-1], f[t[i]]) IN w[n]
  IN {<<r, WNorm(SumOver({t \in T : srt[t] = r}, wt))>> : r \in R}

(* projective equality of a spec distribution with observed outcomes os and weight residues ws *)
Support(f) == {v \in DOMAIN f : f[v] # 0}
SameDist(f, os, ws) ==
  LET J == {i \in DOMAIN os : ws[i] # 0}
      S == Support(f)
      g == [v \in {os[i] : i \in J} |-> ws[CHOOSE i \in J : os[i] = v]]
      good == {v \in S : f[v] # M}
  IN /\ {os[i] : i \in J} = S
     /\ Cardinality(J) = Cardinality(S)
     /\ good # {} => LET r == CHOOSE v \in good : TRUE
                     IN \A v \in S : (f[v] * g[r]) % M = (f[r] * g[v]) % M
=============================================================================
