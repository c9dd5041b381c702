------------------------------ MODULE MCValues ------------------------------
(***************************************************************************)
(* The sentences of the documentation about how kinds of values combine,     *)
(* checked on every pair of small values under every settings:               *)
(*   blanks (neutral, absorbing, the other kind), sequences (acting as their *)
(*   sum, counting, position by position), dice (pair by pair), rolling.     *)
(***************************************************************************)
EXTENDS Api
CONSTANTS Elements, MaxLen, Variant
VARIABLES va, vb, ms
vars == <<va, vb, ms>>
Settings1 == {Default, [Default EXCEPT !.ign = TRUE], [Default EXCEPT !.trunc = TRUE], [Default EXCEPT !.order = "lo"]}
Els == {I(x - 2) : x \in Elements}
Numbers == {N(x) : x \in Els}
Seqs == UNION {{S(q) : q \in [1..k -> Els]} : k \in 0..MaxLen}
Dice == {Die(f, Default) : f \in {g \in [Els -> 0..2] : Support(g) # {}}} \cup {RollInt(2, Die(Uniform(<<I(0), I(1)>>), Default), Default)}
Blanks == {Blank, SBlank}
Zed == N(Zero)
Init == va = Zed /\ vb = Zed /\ ms = Default
Next == va = Zed /\ vb = Zed /\ ms = Default
        /\ va' \in (Numbers \cup Seqs \cup Dice \cup Blanks) /\ vb' \in (Numbers \cup Seqs \cup Dice \cup Blanks) /\ ms' \in Settings1
Spec == Init /\ [][Next]_vars

Bin1(op) == IF Variant = "order" /\ op = "sub" THEN BinOp(op, vb, va, ms) ELSE BinOp(op, va, vb, ms)
Arith == {"add", "sub", "mul", "floordiv", "truediv", "mod", "pow"}
IsB(v) == v.t = "b" /\ ~v.sp
IsS(v) == v.t = "b" /\ v.sp
AsScalar(v) == IF v.t = "s" THEN N(SumQ(v.q)) ELSE v
Alike(x, y) == IF x.t = "d" /\ y.t = "d" THEN (x.n = y.n /\ LET q == SetToSeq(DOMAIN y.f) IN SameDist(x.f, q, [i \in DOMAIN q |-> y.f[q[i]]])) ELSE x = y

(* ---- blanks ---- *)
BlankNeutral ==
  /\ IsB(va) /\ vb.t # "b" => /\ Bin1("add") = vb /\ Bin1("or") = vb
                              /\ Alike(Bin1("sub"), NegOf(vb, ms))
  /\ IsB(vb) /\ va.t # "b" => Bin1("add") = AsScalar(va) /\ Bin1("sub") = AsScalar(va) /\ Bin1("or") = AsScalar(va)
BlankAbsorbs ==
  /\ IsB(va) => \A op \in {"mul", "floordiv", "truediv", "mod", "pow", "and"} \cup CmpOps : Bin1(op) = Blank
  /\ IsB(vb) /\ ~IsS(va) => \A op \in {"mul", "floordiv", "truediv", "mod", "pow", "and"} \cup CmpOps : Bin1(op) = Blank
  /\ IsB(va) => \A op \in {"neg", "not", "abs", "floor", "ceil", "trunc"} : UnOp(op, va, ms) = Blank
OtherBlank ==
  /\ IsS(va) => /\ \A op \in {"add", "sub"} : Bin1(op) = SBlank
                /\ \A op \in CmpOps \cup {"and", "or"} : Bin1(op) = N(One)
                /\ UnOp("not", va, ms) = N(One)
  /\ IsS(vb) /\ va.t # "b" => \A op \in {"add", "sub"} : Bin1(op) = SBlank
BlankLengths == IsB(va) => UnOp("len", va, ms) = N(Zero) /\ UnOp("bool", va, ms) = Err /\ At(va, vb, ms) = Err

(* ---- sequences ---- *)
Plain(v) == v.t \in {"n", "s", "d"}
ActsAsSum == va.t = "s" /\ Plain(vb) => \A op \in Arith \cup {"and", "or"} : Alike(Bin1(op), BinOp(op, N(SumQ(va.q)), vb, ms))
ActsAsSumRight == vb.t = "s" /\ Plain(va) => \A op \in Arith \cup {"and", "or"} : Alike(Bin1(op), BinOp(op, va, N(SumQ(vb.q)), ms))
Counts == va.t = "s" /\ vb.t = "n" => \A op \in CmpOps : Bin1(op) = N(I(Cardinality({i \in DOMAIN va.q : NOp(op, va.q[i], vb.v) = One})))
CountsFlipped == va.t = "n" /\ vb.t = "s" => \A op \in CmpOps : Bin1(op) = BinOp(FlipOp(op), vb, va, ms)
Everywhere ==        \* position by position, the shorter one padded below everything
  va.t = "s" /\ vb.t = "s" =>
    LET k == IF Len(va.q) > Len(vb.q) THEN Len(va.q) ELSE Len(vb.q)
        low == I(-1000)
        pad(q) == [i \in 1..k |-> IF i <= Len(q) THEN q[i] ELSE low]
    IN /\ \A op \in CmpOps \ {"ne"} : Bin1(op) = N(B(\A i \in 1..k : NOp(op, pad(va.q)[i], pad(vb.q)[i]) = One))
       /\ Bin1("ne") = UnOp("not", Bin1("eq"), ms)
WithDie == va.t = "s" /\ vb.t = "d" => \A op \in CmpOps : Alike(Bin1(op), BinOp(op, N(SumQ(va.q)), vb, ms))
Positions1 == va.t = "n" /\ vb.t = "s" => At(va, vb, ms) = N(IF va.v[1] \in DOMAIN vb.q THEN vb.q[va.v[1]] ELSE Zero)
Positions2 == va.t = "s" /\ vb.t = "s" => At(va, vb, ms) = N(SumQ([i \in DOMAIN va.q |-> At(N(va.q[i]), vb, ms).v]))

(* ---- dice ---- *)
Opposite(op) == CASE op = "eq" -> "ne" [] op = "lt" -> "ge" [] op = "gt" -> "le"
Complementary == va.t = "d" /\ vb.t \in {"d", "n"} => \A op \in {"eq", "lt", "gt"} :
                   Alike(BinOp("sub", N(One), Bin1(op), ms), Bin1(Opposite(op)))
Mirrored == va.t = "d" /\ vb.t \in {"d", "n", "s"} => \A op \in CmpOps : Alike(Bin1(op), BinOp(FlipOp(op), vb, va, ms))
MinusPlus == Plain(va) /\ Plain(vb) => Alike(Bin1("sub"), BinOp("add", va, NegOf(vb, ms), ms))
Commutes == Plain(va) /\ Plain(vb) => \A op \in {"add", "mul"} : Alike(Bin1(op), BinOp(op, vb, va, ms))

(* ---- rolling ---- *)
NatCount(v) == v.t = "n" /\ v.v[2] = 1
RollNegative == NatCount(va) /\ va.v[1] < 0 /\ Plain(vb) => LET r == Roll(N(NNeg(va.v)), vb, ms) IN r.t = "d" => LET p == Roll(va, vb, ms) IN Alike([p EXCEPT !.n = 1], [NegOf(r, ms) EXCEPT !.n = 1])
RollByLength == va.t = "s" /\ Plain(vb) => LET r == Roll(va, vb, ms)  p == Roll(N(SumQ(va.q)), vb, ms) IN IF r.t = "d" /\ p.t = "d" THEN Alike(r, p) ELSE r.t = p.t
RollZero == va = Zed /\ vb.t = "d" => LET r == Roll(va, vb, ms) IN r.f = Zeroish /\ r.n = 1
RollBlank == /\ vb.t = "b" => Roll(va, vb, ms) = Blank
             /\ va.t = "b" /\ vb.t # "b" => Roll(va, vb, ms) = SBlank
PoolSize == NatCount(va) /\ Plain(vb) => LET r == Roll(va, vb, ms) IN r.t = "d" => r.n = (IF va.v[1] >= 2 THEN va.v[1] ELSE IF va.v[1] = 1 /\ vb.t = "d" THEN vb.n ELSE 1)
=============================================================================
