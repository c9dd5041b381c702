------------------------------- MODULE Num -------------------------------
(***************************************************************************)
(* Outcomes of dice and elements of sequences.  A number is a normalised    *)
(* rational <<n, d>>, d >= 1.  Two special numbers are absorbing:           *)
(*   ANYN = <<0,0>>  not specified (outside the range this spec decides:    *)
(*                   magnitudes over 10^9, inexact binary fractions, ...)   *)
(*   ERRN = <<1,0>>  the operation is an error (division by zero)           *)
(* A text is <<0, -1, terms>>: its terms <<characters, multiplicity>> in    *)
(* ascending order of the characters; a number that was added to it is a    *)
(* first term with the pseudo-characters <<-1>>.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

ANYN == <<0, 0>>
ERRN == <<1, 0>>
IntMax == 1000000000
FracMax == 1000000      \* numerators of proper fractions
DenMax == 1024

Abs(i) == IF i < 0 THEN -i ELSE i
IsSpecial(x) == x[2] = 0
IsNum(x) == Len(x) = 2
IsText(x) == x[2] = -1
I(i) == <<i, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
B(b) == IF b THEN <<1, 1>> ELSE <<0, 1>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(* normalise n/d, d # 0 *)
Norm(n, d) ==
  LET s == IF d < 0 THEN -1 ELSE 1
      g == Gcd(Abs(n), Abs(d))
      nn == s * (n \div g)          \* exact: g divides n
      dd == Abs(d) \div g
  IN IF dd = 1 THEN (IF Abs(nn) > IntMax THEN ANYN ELSE <<nn, 1>>)
     ELSE IF Abs(nn) > FracMax \/ dd > DenMax THEN ANYN ELSE <<nn, dd>>

(* products that stay within 10^9, otherwise "too big" *)
MulOk(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= IntMax \div Abs(b)

Pow2s == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024}
Dyadic(x) == x[2] \in Pow2s
Bad2(x, y) == IsSpecial(x) \/ IsSpecial(y)
Spec2(x, y) == IF x = ERRN \/ y = ERRN THEN ERRN ELSE ANYN
Exact2(x, y) == Dyadic(x) /\ Dyadic(y)

PAdd(x, y) ==
  IF Bad2(x, y) THEN Spec2(x, y)
  ELSE IF ~Exact2(x, y) THEN ANYN
  ELSE IF ~MulOk(x[1], y[2]) \/ ~MulOk(y[1], x[2]) THEN ANYN
  ELSE Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])

(* ---- texts ---- *)
NumKey == <<-1>>
TextOf(chars) == <<0, -1, << <<chars, One>> >> >>
RECURSIVE CharsLess(_, _)
CharsLess(p, q) == IF p = <<>> THEN q # <<>> ELSE IF q = <<>> THEN FALSE
                   ELSE IF Head(p) # Head(q) THEN Head(p) < Head(q) ELSE CharsLess(Tail(p), Tail(q))
Terms(x) == IF IsText(x) THEN x[3] ELSE << <<NumKey, x>> >>      \* a number, seen as a text
RECURSIVE MergeTerms(_, _)
MergeTerms(p, q) ==
  IF p = <<>> THEN q ELSE IF q = <<>> THEN p
  ELSE LET a == Head(p)  b == Head(q)
       IN IF a[1] = b[1] THEN << <<a[1], IF a[2][2] = 1 /\ b[2][2] = 1 THEN (IF Abs(a[2][1] + b[2][1]) > IntMax THEN ANYN ELSE I(a[2][1] + b[2][1])) ELSE PAdd(a[2], b[2])>> >> \o MergeTerms(Tail(p), Tail(q))
          ELSE IF CharsLess(a[1], b[1]) THEN <<a>> \o MergeTerms(Tail(p), q)
          ELSE <<b>> \o MergeTerms(p, Tail(q))
TextAdd(x, y) ==
  LET t == MergeTerms(Terms(x), Terms(y))
  IN IF \E i \in DOMAIN t : IsSpecial(t[i][2]) THEN ANYN ELSE <<0, -1, t>>
HasNum(x) == x[3] # <<>> /\ x[3][1][1] = NumKey
(* texts without a number compare term by term, by characters, then by multiplicity; fewer terms first *)
RECURSIVE TermsLess(_, _)
TermsLess(p, q) ==
  IF p = <<>> THEN q # <<>> ELSE IF q = <<>> THEN FALSE
  ELSE IF Head(p)[1] # Head(q)[1] THEN CharsLess(Head(p)[1], Head(q)[1])
  ELSE IF Head(p)[2] # Head(q)[2] THEN Head(p)[2][1] < Head(q)[2][1]
  ELSE TermsLess(Tail(p), Tail(q))
(* every text is above every number; how a text with a number compares to other texts is not specified (this is some total order) *)
TextLess(x, y) == IF ~IsText(x) THEN TRUE ELSE IF ~IsText(y) THEN FALSE ELSE TermsLess(x[3], y[3])
Comparable(x, y) == ~IsText(x) \/ ~IsText(y) \/ x = y \/ (~HasNum(x) /\ ~HasNum(y))

NAdd(x, y) ==
  IF x[2] = 1 /\ y[2] = 1 THEN (IF Abs(x[1] + y[1]) > IntMax THEN ANYN ELSE <<x[1] + y[1], 1>>)
  ELSE IF Bad2(x, y) THEN Spec2(x, y)
  ELSE IF IsText(x) \/ IsText(y) THEN TextAdd(x, y)
  ELSE PAdd(x, y)
NNeg(x) == IF IsSpecial(x) THEN x ELSE IF IsText(x) THEN ANYN ELSE <<-x[1], x[2]>>
NSub(x, y) == NAdd(x, NNeg(y))
NMul(x, y) ==
  IF Bad2(x, y) THEN Spec2(x, y)
  ELSE IF ~(x[2] = 1 /\ y[2] = 1) /\ ~Exact2(x, y) THEN ANYN
  ELSE IF ~MulOk(x[1], y[1]) THEN ANYN
  ELSE Norm(x[1] * y[1], x[2] * y[2])

NLess(x, y) ==         \* neither special
  IF IsText(x) \/ IsText(y) THEN TextLess(x, y)
  ELSE IF x[2] = y[2] THEN x[1] < y[1]
  ELSE IF x[2] = 1 /\ Abs(x[1]) > FracMax THEN x[1] < 0
  ELSE IF y[2] = 1 /\ Abs(y[1]) > FracMax THEN y[1] > 0
  ELSE x[1] * y[2] < y[1] * x[2]
NFloor(x) == IF IsSpecial(x) THEN x ELSE IF IsText(x) THEN ANYN ELSE <<x[1] \div x[2], 1>>      \* TLA+ \div floors
NCeil(x) == IF IsSpecial(x) THEN x ELSE IF IsText(x) THEN ANYN ELSE <<-((-x[1]) \div x[2]), 1>>
NTrunc(x) == IF IsSpecial(x) THEN x ELSE IF IsText(x) THEN ANYN ELSE IF x[1] >= 0 THEN NFloor(x) ELSE NCeil(x)
NAbs(x) == IF IsSpecial(x) THEN x ELSE IF IsText(x) THEN ANYN ELSE <<Abs(x[1]), x[2]>>

(* exact quotient; the result may be a non-dyadic fraction *)
NDiv(x, y) ==
  IF Bad2(x, y) THEN Spec2(x, y)
  ELSE IF ~Exact2(x, y) THEN ANYN
  ELSE IF y[1] = 0 THEN ERRN
  ELSE IF ~MulOk(x[1], y[2]) \/ ~MulOk(y[1], x[2]) THEN ANYN
  ELSE Norm(x[1] * y[2], y[1] * x[2])
NFloorDiv(x, y) ==
  IF Bad2(x, y) THEN Spec2(x, y)
  ELSE IF y[1] = 0 THEN ERRN
  ELSE IF x[2] = 1 /\ y[2] = 1
       THEN (IF y[1] > 0 THEN <<x[1] \div y[1], 1>> ELSE <<(-x[1]) \div (-y[1]), 1>>)
  ELSE NFloor(NDiv(x, y))
NMod(x, y) ==
  IF Bad2(x, y) THEN Spec2(x, y)
  ELSE IF y[1] = 0 THEN ERRN
  ELSE NSub(x, NMul(y, NFloorDiv(x, y)))

RECURSIVE PowN(_, _)
PowN(x, k) == IF k = 0 THEN One ELSE NMul(x, PowN(x, k - 1))
(* integer exponents only; other exponents are outside this spec *)
NPow(x, y) ==
  IF Bad2(x, y) THEN Spec2(x, y)
  ELSE IF y[2] # 1 THEN ANYN
  ELSE IF y[1] < 0
       THEN IF x[1] = 0 THEN ERRN
            ELSE IF y[1] < -40 \/ ~Dyadic(x) THEN ANYN
            ELSE LET p == PowN(x, -y[1]) IN IF IsSpecial(p) THEN ANYN ELSE Norm(p[2], p[1])
  ELSE IF x[1] = 0 THEN (IF y[1] = 0 THEN One ELSE Zero)
  ELSE IF x = One THEN One
  ELSE IF x = <<-1, 1>> THEN (IF y[1] % 2 = 0 THEN One ELSE x)
  ELSE IF y[1] > 40 THEN ANYN
  ELSE PowN(x, y[1])

Cmp2(x, y, b) == IF Bad2(x, y) THEN Spec2(x, y) ELSE IF ~Exact2(x, y) THEN ANYN ELSE B(b)
TextOp(op, x, y) ==
  CASE op = "add" -> NAdd(x, y)
    [] op = "eq" -> B(x = y)
    [] op = "ne" -> B(x # y)
    [] op \in {"lt", "le", "gt", "ge"} -> IF ~Comparable(x, y) THEN ANYN
                                         ELSE B(CASE op = "lt" -> NLess(x, y) [] op = "le" -> ~NLess(y, x) [] op = "gt" -> NLess(y, x) [] op = "ge" -> ~NLess(x, y))
    [] OTHER -> ANYN
NOp(op, x, y) ==
  IF (IsText(x) \/ IsText(y)) /\ ~Bad2(x, y) THEN TextOp(op, x, y) ELSE
  CASE op = "add" -> NAdd(x, y)
    [] op = "sub" -> NSub(x, y)
    [] op = "mul" -> NMul(x, y)
    [] op = "floordiv" -> NFloorDiv(x, y)
    [] op = "truediv" -> NDiv(x, y)
    [] op = "mod" -> NMod(x, y)
    [] op = "pow" -> NPow(x, y)
    [] op = "eq" -> Cmp2(x, y, x = y)
    [] op = "ne" -> Cmp2(x, y, x # y)
    [] op = "lt" -> Cmp2(x, y, NLess(x, y))
    [] op = "le" -> Cmp2(x, y, ~NLess(y, x))
    [] op = "gt" -> Cmp2(x, y, NLess(y, x))
    [] op = "ge" -> Cmp2(x, y, ~NLess(x, y))
    [] op = "and" -> Cmp2(x, y, x[1] # 0 /\ y[1] # 0)
    [] op = "or" -> Cmp2(x, y, x[1] # 0 \/ y[1] # 0)

ArithOps == {"add", "sub", "mul", "floordiv", "truediv", "mod", "pow"}
CmpOps == {"eq", "ne", "lt", "le", "gt", "ge"}
BoolOps == {"and", "or"}
FlipOp(op) == CASE op = "lt" -> "gt" [] op = "le" -> "ge" [] op = "gt" -> "lt" [] op = "ge" -> "le" [] OTHER -> op

(* round half to even at 10^-k, k in -3..2 *)
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000 [] k = 6 -> 1000000
NRound(x, k) ==
  IF IsSpecial(x) THEN x
  ELSE IF ~Dyadic(x) \/ k > 2 \/ k < -3 THEN ANYN
  ELSE LET up == IF k >= 0 THEN Pow10(k) ELSE 1
           dn == IF k < 0 THEN Pow10(-k) ELSE 1
       IN IF ~MulOk(x[1], 2 * up) \/ x[2] * dn > IntMax \div 4 THEN ANYN
          ELSE LET n == x[1] * up          \* x = n / (x[2]*up); round n/d to integer, d == x[2]*dn
                   d == x[2] * dn
                   q == n \div d
                   r2 == 2 * (n - q * d)   \* compare with d
                   z == IF r2 > d \/ (r2 = d /\ q % 2 = 1) THEN q + 1 ELSE q
               IN IF k >= 0 THEN Norm(z, up) ELSE IF MulOk(z, dn) THEN Norm(z * dn, 1) ELSE ANYN

(* decimal digits of a natural number, most significant first *)
RECURSIVE Digits(_)
Digits(i) == IF i < 10 THEN <<i>> ELSE Append(Digits(i \div 10), i % 10)
=============================================================================
