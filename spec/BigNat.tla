------------------------------ MODULE BigNat ------------------------------
(* Natural numbers of any size: sequences of base-10000 limbs, least significant first, without leading zeros. *)
EXTENDS Integers, Sequences, TLC
Base == 10000

RECURSIVE BTrim(_)
BTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE BInt(_)
BInt(i) == IF i = 0 THEN <<>> ELSE <<i % Base>> \o BInt(i \div Base)
BLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BMax(i, j) == IF i > j THEN i ELSE j

RECURSIVE BCarry(_, _, _, _)
BCarry(a, i, c, acc) ==      \* normalise a sequence of non-negative limbs, each below 2 * 10^9
  IF i > Len(a) THEN acc \o BInt(c)
  ELSE LET s == a[i] + c IN BCarry(a, i + 1, s \div Base, Append(acc, s % Base))
BNorm(a) == BTrim(BCarry(a, 1, 0, <<>>))

BAdd(a, b) == BNorm([i \in 1..BMax(Len(a), Len(b)) |-> BLimb(a, i) + BLimb(b, i)])
RECURSIVE BSubR(_, _, _, _, _)
BSubR(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] - BLimb(b, i) - c
       IN IF s < 0 THEN BSubR(a, b, i + 1, 1, Append(acc, s + Base)) ELSE BSubR(a, b, i + 1, 0, Append(acc, s))
BSub(a, b) == BTrim(BSubR(a, b, 1, 0, <<>>))        \* a >= b
BMulS(a, k) == BNorm([i \in DOMAIN a |-> a[i] * k])  \* k <= 10^5
BShift(a, n) == IF a = <<>> THEN a ELSE [i \in 1..n |-> 0] \o a
(* column sums stay below 2 * 10^9 for up to 20 limbs; beyond that, row by row *)
RECURSIVE BMulRows(_, _, _)
BMulRows(a, b, i) == IF i > Len(b) THEN <<>> ELSE BAdd(BShift(BMulS(a, b[i]), i - 1), BMulRows(a, b, i + 1))
BMul(a, b) == BMulRows(a, b, 1)

RECURSIVE BLessR(_, _, _)
BLessR(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLessR(a, b, i - 1)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLessR(a, b, Len(a))
BLeq(a, b) == ~BLess(b, a)
BDiff(a, b) == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)      \* |a - b|
RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN <<1>> ELSE BMul(a, BPow(a, k - 1))
Ten12 == <<0, 0, 0, 1>>
(* signed numbers as <<sign, magnitude>> *)
SDiff(sa, a, sb, b) == IF sa = sb THEN BDiff(a, b) ELSE BAdd(a, b)  \* |sa*a - sb*b|
=============================================================================
