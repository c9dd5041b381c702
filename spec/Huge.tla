------------------------------- MODULE Huge -------------------------------
(***************************************************************************)
(* Distributions of very many dice, with probabilities as fixed-point       *)
(* numbers of 14 decimals: <<a, b>> stands for (a * 10^7 + b) / 10^14.       *)
(* A distribution is a function from a range of integers to such numbers.   *)
(* Every step truncates below 10^-14, so after n steps the error is below    *)
(* n * 10^-14: far below the 10^-9 at which answers are compared.            *)
(***************************************************************************)
EXTENDS Api
FB == 10000000
FZero == <<0, 0>>
FOne == <<FB, 0>>
(* (H * 10^7 + L) / (T * 10^14), T <= 100 *)
FDivS(A, L, T) == LET q2 == ((A % T) * FB + L) \div T IN <<(A \div T) + (q2 \div FB), q2 % FB>>
FAdd(x, y) == LET b == x[2] + y[2] IN <<x[1] + y[1] + (b \div FB), b % FB>>

MinI(X0) == CHOOSE x \in X0 : \A y \in X0 : x <= y
MaxI(X0) == CHOOSE x \in X0 : \A y \in X0 : x >= y
Lo(f) == MinI(DOMAIN f)
Hi(f) == MaxI(DOMAIN f)

(* a small die: sequence of <<integer, weight>>; its total *)
RECURSIVE PartSum(_, _)
PartSum(d, i) == IF i = 0 THEN 0 ELSE d[i][2] + PartSum(d, i - 1)
DTotal(d) == PartSum(d, Len(d))
DLo(d) == MinI({d[i][1] : i \in DOMAIN d})
DHi(d) == MaxI({d[i][1] : i \in DOMAIN d})
FConst(c) == [v \in c..c |-> FOne]

(* distributions over an interval, kept with its bounds *)
HD(lo, hi, f) == [lo |-> lo, hi |-> hi, f |-> f]
HConst(c) == HD(c, c, FConst(c))
At0(h, v) == IF v < h.lo \/ v > h.hi THEN FZero ELSE h.f[v]
RECURSIVE SumFaces(_, _, _, _, _, _)
SumFaces(h, d, v, i, A, L) == IF i > Len(d) THEN <<A, L>>
                              ELSE LET p == At0(h, v - d[i][1]) IN SumFaces(h, d, v, i + 1, A + d[i][2] * p[1], L + d[i][2] * p[2])
AddDie(h, d) ==
  LET T == DTotal(d)
      lo == h.lo + DLo(d)
      hi == h.hi + DHi(d)
  IN HD(lo, hi, TLCEval([v \in lo..hi |-> LET s == SumFaces(h, d, v, 1, 0, 0) IN FDivS(s[1], s[2], T)]))
RECURSIVE AddDice(_, _, _)
AddDice(h, n, d) == IF n = 0 THEN h ELSE AddDice(TLCEval(AddDie(h, d)), n - 1, d)

(* how many of n dice are at or above x: binomial with success weight a of T *)
RECURSIVE Successes(_, _, _)
Successes(n, a, T) == AddDice(HConst(0), n, << <<0, T - a>>, <<1, a>> >>)
RECURSIVE TailSum(_, _, _)
TailSum(h, k, hi) == IF k > hi THEN FZero ELSE FAdd(At0(h, k), TailSum(h, k + 1, hi))
(* the k-th highest of n dice is at least x *)
AtLeast(n, d, k, x) == LET a == PartSum([i \in DOMAIN d |-> <<0, IF d[i][1] >= x THEN d[i][2] ELSE 0>>], Len(d))
                       IN IF a = 0 THEN FZero ELSE IF a = DTotal(d) THEN FOne ELSE TailSum(Successes(n, a, DTotal(d)), k, n)
FSub(x, y) == LET b == x[2] - y[2] IN IF b >= 0 THEN <<x[1] - y[1], b>> ELSE <<x[1] - y[1] - 1, b + FB>>
FClip(x) == IF x[1] < 0 THEN FZero ELSE x          \* truncation may leave a difference just below 0
KthHuge(n, d, k) ==
  LET lo == DLo(d)
      hi == DHi(d)
      g == TLCEval([x \in lo..(hi + 1) |-> AtLeast(n, d, k, x)])
  IN HD(lo, hi, TLCEval([x \in lo..hi |-> FClip(FSub(g[x], g[x + 1]))]))

(* apply an integer map *)
RECURSIVE SumF(_, _)
SumF(h, X0) == IF X0 = {} THEN FZero ELSE LET v == CHOOSE v \in X0 : TRUE IN FAdd(h.f[v], SumF(h, X0 \ {v}))
HMap(h, Op(_)) ==
  LET g == TLCEval([v \in h.lo..h.hi |-> Op(v)])
      R == {g[v] : v \in h.lo..h.hi}
      lo == MinI(R)
      hi == MaxI(R)
  IN HD(lo, hi, TLCEval([r \in lo..hi |-> SumF(h, {v \in h.lo..h.hi : g[v] = r})]))
(* mixture with small weights, total <= 100 *)
RECURSIVE MixAt(_, _, _, _, _, _)
MixAt(hs, ws, v, i, A, L) == IF i > Len(hs) THEN <<A, L>> ELSE LET p == At0(hs[i], v) IN MixAt(hs, ws, v, i + 1, A + ws[i] * p[1], L + ws[i] * p[2])
HMix(hs, ws) ==
  LET lo == MinI({hs[i].lo : i \in DOMAIN hs})
      hi == MaxI({hs[i].hi : i \in DOMAIN hs})
      T == PartSum([i \in DOMAIN ws |-> <<0, ws[i]>>], Len(ws))
  IN HD(lo, hi, TLCEval([v \in lo..hi |-> LET s == MixAt(hs, ws, v, 1, 0, 0) IN FDivS(s[1], s[2], T)]))

(* the expressions decided here: sums of many dice, order statistics of big pools, their images and mixtures *)
SmallDie(e) == IF e.op = "rv" THEN TLCEval([i \in DOMAIN e.v |-> <<e.v[i][1], e.w[i]>>])
               ELSE TLCEval([i \in 1..e.v[1] |-> <<i, 1>>])                  \* plain sides
NegDie(d) == TLCEval([i \in DOMAIN d |-> <<-d[i][1], d[i][2]>>])
RECURSIVE HEval(_)
RECURSIVE HAdd(_, _, _)
HAdd(h, e, sg) ==        \* h + sg * e, independent
  CASE e.op = "n" -> [h EXCEPT !.lo = @ + sg * e.v[1], !.hi = @ + sg * e.v[1],
                               !.f = TLCEval([v \in (h.lo + sg * e.v[1])..(h.hi + sg * e.v[1]) |-> h.f[v - sg * e.v[1]]])]
    [] e.op = "rv" -> AddDie(h, IF sg = 1 THEN SmallDie(e) ELSE NegDie(SmallDie(e)))
    [] e.op = "roll" -> LET k == e.a[1].v[1]
                            d == SmallDie(e.a[2])
                        IN AddDice(h, Abs(k), IF (k < 0) = (sg = 1) THEN NegDie(d) ELSE d)
    [] e.op = "add" -> HAdd(HAdd(h, e.a[1], sg), e.a[2], sg)
    [] e.op = "sub" -> HAdd(HAdd(h, e.a[1], sg), e.a[2], -sg)
    [] e.op = "neg" -> HAdd(h, e.a[1], -sg)
HEval(e) ==
  CASE e.op \in {"n", "rv", "roll", "add", "sub", "neg"} -> HAdd(HConst(0), e, 1)
    [] e.op = "at" -> KthHuge(e.a[2].a[1].v[1], SmallDie(e.a[2].a[2]), e.a[1].v[1])
    [] e.op \in CmpOps \cup {"mod", "floordiv", "mul"} -> HMap(HEval(e.a[1]), LAMBDA v : NOp(e.op, I(v), e.a[2].v)[1])
    [] e.op = "mix" -> HMix(TLCEval([i \in DOMAIN e.a |-> HEval(e.a[i])]), e.w)
    [] e.op = "call" -> HMap(HEval(e.a[1]), LAMBDA v : Eval(e.fn.body, [TopEnv(<<>>) EXCEPT !.p = <<N(I(v))>>], Default).v[1])

(* observed: [t |-> "ok", v |-> outcomes (integers), p |-> probabilities <<a, b>>] *)
NearF(x, y) == LET da == x[1] - y[1] IN Abs(da) <= 1 /\ Abs(da * FB + (x[2] - y[2])) <= 101000      \* 10^-9, and a little for truncation
HugeFact(e, o) ==
  LET h == TLCEval(HEval(e))
      D == DOMAIN o.v
      Obs == {o.v[i] : i \in D}
  IN IF o.t # "ok" THEN "failed on huge weights"
     ELSE IF Cardinality(Obs) # Len(o.v) THEN "an outcome listed twice"
     ELSE IF \E i \in D : ~NearF(o.p[i], At0(h, o.v[i])) THEN "inaccurate probability"
     ELSE IF \E v \in h.lo..h.hi : v \notin Obs /\ ~NearF(FZero, h.f[v]) THEN "outcome lost"
     ELSE "ok"
=============================================================================
