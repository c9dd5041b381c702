------------------------------- MODULE MCDist -------------------------------
(***************************************************************************)
(* The laws of dice, checked on every small die: the closed forms the        *)
(* specification decides the real code with (order statistics, sorted rolls, *)
(* repeated sums, mixtures, casts, explosions, fixed-point sums) against      *)
(* first principles: every ordered roll, one by one.  Variant selects a       *)
(* plausible wrong definition, which the laws must reject.                    *)
(***************************************************************************)
EXTENDS Huge
CONSTANTS Outcomes, Weights, Shift, MaxN, Variant
VARIABLES df, dg, cnt
vars == <<df, dg, cnt>>
Small == {h \in [{I(x - Shift) : x \in Outcomes} -> Weights] : Support(h) # {}}
Start == ConstDist(I(1))
Init == df = Start /\ dg \in {ConstDist(I(3)), [x \in {I(-1), I(4)} |-> IF x = I(4) THEN 3 ELSE 1], [x \in {I(0), I(1), I(2)} |-> 1]} /\ cnt \in 1..MaxN
Next == df = Start /\ df' \in Small /\ UNCHANGED <<dg, cnt>>
Spec == Init /\ [][Next]_vars

(* two distributions are the same up to a common factor *)
Same(a0, b0) == LET a == TLCEval(a0)  b == TLCEval(b0)  q == TLCEval(SetToSeq(DOMAIN b))
                IN SameDist(a, q, TLCEval([i \in DOMAIN q |-> b[q[i]]]))
Pool == TLCEval([t |-> "d", f |-> NFold(cnt, df), n |-> cnt, src |-> df, l |-> cnt, r |-> UnknownRhs])

(* first principles: a function of the ordered roll *)
Tuples == TLCEval(NTuples(DOMAIN df, cnt))
TupleWeight(t) == LET w[i \in 0..cnt] == IF i = 0 THEN 1 ELSE WMul(w[i-1], df[t[i]]) IN w[cnt]
OfRoll(Fn(_)) == LET v == TLCEval([t \in Tuples |-> Fn(t)])
                 IN TLCEval([x \in {v[t] : t \in Tuples} |-> WNorm(SumOver({t \in Tuples : v[t] = x}, TupleWeight))])
Highest(t, k) == SortedQ(t)[cnt + 1 - k]

(* ---- the definitions under test, good or broken ---- *)
Kth(k) == IF Variant # "ties" THEN KthHighest(df, cnt, k)
          ELSE [x \in DOMAIN df |-> WMul(Bin(cnt, k - 1), WMul(WPow(WNorm(SumOver({y \in DOMAIN df : NLess(x, y)}, LAMBDA y : df[y])), k - 1),
                     WMul(df[x], WPow(WNorm(SumOver({y \in DOMAIN df : ~NLess(x, y)}, LAMBDA y : df[y])), cnt - k))))]
MixOf(cs, ws) == IF Variant # "unscaled" THEN Mix(cs, ws)
                 ELSE [v \in UNION {DOMAIN cs[i] : i \in DOMAIN cs} |-> WNorm(SumOver({i \in DOMAIN cs : v \in DOMAIN cs[i]}, LAMBDA i : WMul(ws[i], cs[i][v])))]
RollsOf == IF Variant # "orders" THEN Rolls(df, cnt)
           ELSE {<<r[1], WNorm(LET w[i \in 0..cnt] == IF i = 0 THEN 1 ELSE WMul(w[i-1], df[r[1][i]]) IN w[cnt])>> : r \in Rolls(df, cnt)}
Fold(k) == IF Variant = "same die" THEN MapDist(df, LAMBDA x : NMul(x, I(k))) ELSE NFold(k, df)

(* ---- the laws ---- *)
Sums == Same(Fold(cnt), OfRoll(SumQ))
SumsSplit == \A a \in 1..(cnt - 1) : Same(ConvAdd(NFold(a, df), NFold(cnt - a, df)), Fold(cnt))
SortedRolls == RollsOf = RollsNaive(df, cnt)
OrderStatistics == \A k \in 1..cnt : Same(Kth(k), OfRoll(LAMBDA t : Highest(t, k)))
(* the k-th highest of the negated dice is the negated k-th lowest *)
Mirror == \A k \in 1..cnt : Same(KthHighest(MapDist(df, NNeg), cnt, k), MapDist(KthHighest(df, cnt, cnt + 1 - k), NNeg))
Positions == \A p, q \in 1..(cnt + 1) : cnt > 1 => Same(SelectPool(Pool, <<p, q>>, Default).f,
                OfRoll(LAMBDA t : NAdd(IF p <= cnt THEN Highest(t, p) ELSE Zero, IF q <= cnt THEN Highest(t, q) ELSE Zero)))
AllPositions == Same(At(S([i \in 1..cnt |-> I(i)]), Pool, Default).f, Fold(cnt))
EitherOrder == \A k \in 1..cnt : LET d == [Pool EXCEPT !.n = cnt] IN At(N(I(k)), d, [Default EXCEPT !.order = "lo"]) = At(N(I(cnt + 1 - k)), d, Default)

Scaled(h, c) == TLCEval([x \in DOMAIN h |-> WMul(c, h[x])])
MixScale == Same(MixOf(<<Scaled(df, 6), dg>>, <<2, 1>>), MixOf(<<df, Scaled(dg, 5)>>, <<2, 1>>))
MixOrder == Same(MixOf(<<df, dg, ConstDist(Zero)>>, <<2, 3, 1>>), MixOf(<<ConstDist(Zero), df, dg>>, <<1, 2, 3>>))
MixSelf == Same(MixOf(<<df, df>>, <<1, 4>>), df)
MixNested == Same(Mix(<<Mix(<<df, dg>>, <<1, 1>>), dg>>, <<2, 1>>), Mix(<<df, dg>>, <<1, 2>>))

Complement == \A op \in {<<"lt", "ge">>, <<"gt", "le">>, <<"eq", "ne">>} :
                Same(Conv(op[1], df, dg), MapDist(Conv(op[2], df, dg), LAMBDA x : NSub(One, x)))
Swapped == /\ Same(ConvAdd(df, dg), ConvAdd(dg, df))
           /\ \A op \in CmpOps : Same(Conv(op, df, dg), Conv(FlipOp(op), dg, df))
           /\ Same(Conv("sub", df, dg), MapDist(Conv("sub", dg, df), NNeg))
DivMod == LET g0 == [x \in DOMAIN dg \ {Zero} |-> dg[x]]
          IN DOMAIN g0 # {} => \A a \in DOMAIN df, b \in DOMAIN g0 : NAdd(NMul(b, NFloorDiv(a, b)), NMod(a, b)) = a
(* casting: a number parameter twice is a convolution; a sequence parameter of a pool summed is the pool *)
CastN == Same(CastCall(<<"N", "N">>, <<DieOf(df), DieOf(dg)>>, Default, LAMBDA a : BinOp("mul", a[1], a[2], Default)).f, Conv("mul", df, dg))
CastS == Same(CastCall(<<"S">>, <<Pool>>, Default, LAMBDA a : N(SumQ(a[1].q))).f, Fold(cnt))
CastHighest == cnt > 1 => Same(CastCall(<<"S">>, <<Pool>>, Default, LAMBDA a : N(a[1].q[2])).f, OfRoll(LAMBDA t : Highest(t, 2)))
CastMissing == CastCall(<<"N">>, <<DieOf(df)>>, Default, LAMBDA a : None) = Blank
(* the library *)
HighLow == \A k \in 0..(cnt + 1) : cnt > 1 =>
  /\ Same(LibBody("highest", <<N(I(k)), Pool>>, -1, Default).f, OfRoll(LAMBDA t : LET q == Rev(SortedQ(t)) IN SumQ(SubSeq(q, 1, IF k < cnt THEN k ELSE cnt))))
  /\ Same(LibBody("lowest", <<N(I(k)), Pool>>, -1, Default).f, OfRoll(LAMBDA t : LET q == SortedQ(t) IN SumQ(SubSeq(q, 1, IF k < cnt THEN k ELSE cnt))))
(* one explosion: the die, plus one more roll on its highest outcome *)
ExplodeOnce == LET m == MaxOf(DOMAIN df)
               IN Same(Explode(df, 1, Default), LET T2 == {<<a, b>> : a \in DOMAIN df, b \in DOMAIN df}
                                                    v == [t \in T2 |-> IF t[1] = m THEN NAdd(m, t[2]) ELSE t[1]]
                                                IN [x \in {v[t] : t \in T2} |-> WNorm(SumOver({t \in T2 : v[t] = x}, LAMBDA t : WMul(df[t[1]], df[t[2]])))])
(* fixed-point sums of many dice against the exact ones: within 10^-6 here (the numbers of TLC are 32 bits) *)
AsDie(h) == LET q == Sorted(DOMAIN h) IN [i \in DOMAIN q |-> <<q[i][1], h[q[i]]>>]
Close(h, e) == LET T == SumOver(DOMAIN e, LAMBDA x : e[x])
               IN T < 200 => \A x \in DOMAIN e : Abs(At0(h, x[1])[1] * T - e[x] * FB) <= 3 * T
FixedSums == Close(AddDice(HConst(0), cnt, AsDie(df)), NFold(cnt, df))
FixedKth == cnt > 1 => \A k \in 1..cnt : Close(KthHuge(cnt, AsDie(df), k), KthHighest(df, cnt, k))
=============================================================================
