-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* Meaning of the Python interface: an expression tree e (constructors,     *)
(* operators, rolls, selections, mixtures, casts, library calls) denotes a  *)
(* value, given the parameters and stored values in env and settings st.    *)
(*   env.p: parameter values   env.x: stored values   env.depth: active     *)
(*   limited calls             env.fn: the function being executed          *)
(***************************************************************************)
EXTENDS Values, Settings

Has(r, k) == k \in DOMAIN r

(* a die built from values and weights, before canonical form: zero-weight outcomes kept unless the settings drop them *)
BuildDie(e, st) ==
  IF Len(e.v) # Len(e.w) \/ \E i \in DOMAIN e.w : e.w[i] < 0 THEN Err
  ELSE LET tr == IF Has(e, "tr") THEN e.tr ELSE 0          \* 0: by setting, 1: forced off, 2: forced on
           cut == tr = 2 \/ (tr = 0 /\ st.trunc)
           ps == [i \in DOMAIN e.v |-> <<IF cut THEN NTrunc(e.v[i]) ELSE e.v[i], e.w[i]>>]
           f == Group(ps)
       IN IF \E i \in DOMAIN ps : ps[i][1] = ANYN THEN Unk
          ELSE DieOf(Canon(f, [st EXCEPT !.trunc = FALSE]))

(* ---------------- function library ---------------- *)
LibTypes(name) ==
  CASE name = "absolute" -> <<"N">>
    [] name = "contains" -> <<"S", "N">>
    [] name = "count_in" -> <<"S", "S">>
    [] name \in {"reverse", "sort", "reverse_slow", "sort_slow"} -> <<"S">>
    [] name = "maximum_of" -> <<"D">>
    [] name = "explode" -> <<"D">>
    [] name \in {"highest", "lowest", "middle"} -> <<"N", "D">>
    [] name \in {"highest_of", "lowest_of"} -> <<"N", "N">>
    [] name = "gwf" -> <<"N", "-", "N">>

MaxOf(S0) == CHOOSE x \in S0 : \A y \in S0 : ~NLess(x, y)
RECURSIVE Explode(_, _, _)
Explode(f, depth, st) ==
  IF depth = 0 THEN f
  ELSE LET mx == MaxOf(DOMAIN f)
           rest == Canon(MapDist(Explode(f, depth - 1, st), LAMBDA x : NAdd(mx, x)), st)
           vs == Sorted(DOMAIN f)
       IN Mix([i \in DOMAIN vs |-> IF vs[i] = mx THEN rest ELSE ConstDist(vs[i])], [i \in DOMAIN vs |-> f[vs[i]]])
Span(a, b) == [i \in 1..(IF b >= a THEN b - a + 1 ELSE 0) |-> a + i - 1]
LibBody(name, a, opt, st) ==     \* a: cast argument values; opt: explicit explode depth or -1
  CASE name = "absolute" -> N(NAbs(a[1].v))
    [] name = "contains" -> N(B(CountCmp("eq", a[1].q, a[2].v) # Zero))
    [] name = "count_in" -> N(SumQ([i \in DOMAIN a[1].q |-> CountCmp("eq", a[2].q, a[1].q[i])]))
    [] name \in {"reverse", "reverse_slow"} -> S(Rev(a[1].q))
    [] name \in {"sort", "sort_slow"} -> S(Rev(SortedQ(a[1].q)))
    [] name = "maximum_of" -> N(MaxOf(DOMAIN a[1].f))
    [] name = "explode" -> Die(Explode(a[1].f, IF opt >= 0 THEN opt ELSE st.explode, st), st)
    [] name = "highest" -> SelectPool(a[2], Span(1, a[1].v[1]), st)
    [] name = "lowest" -> SelectPool(a[2], Span(a[2].n - a[1].v[1] + 1, a[2].n), st)
    [] name = "middle" -> LET k == a[1].v[1]  len == a[2].n
                              from == 1 + (len - k) \div 2
                          IN IF k = len THEN a[2] ELSE SelectPool(a[2], Span(from, from + k - 1), st)
    [] name = "highest_of" -> IF NLess(a[2].v, a[1].v) THEN a[1] ELSE a[2]
    [] name = "lowest_of" -> IF NLess(a[1].v, a[2].v) THEN a[1] ELSE a[2]
    [] name = "gwf" -> LET dmg == IF a[2].t = "n" THEN Roll(N(One), a[2], st) ELSE a[2]
                       IN IF dmg.t # "d" \/ a[3].t # "n" THEN Unk
                          ELSE LET vs == Sorted(DOMAIN dmg.f)
                                   one == Die(Mix([i \in DOMAIN vs |-> IF NLess(a[3].v, vs[i]) THEN ConstDist(vs[i]) ELSE dmg.f],
                                                  [i \in DOMAIN vs |-> dmg.f[vs[i]]]), st)
                               IN Roll(a[1], one, st)

(* ---------------- casting ---------------- *)
(* what a parameter of declared type ty makes of argument v, when the die does not have to be split *)
EasyCast(ty, v, st) ==
  CASE ty = "N" -> IF v.t = "s" THEN N(SumQ(v.q)) ELSE v
    [] ty = "S" -> IF v.t = "n" THEN S(<<v.v>>) ELSE v
    [] ty = "D" -> IF v.t \in {"n", "s"} THEN ToDie(v, st) ELSE v
    [] OTHER -> v
MustSplit(ty, v) == ty \in {"N", "S"} /\ v.t = "d"
(* the ways a split parameter is passed: a sequence of <<value, weight>> *)
Splits(ty, v) ==
  IF ty = "N" THEN LET vs == Sorted(DOMAIN v.f) IN [i \in DOMAIN vs |-> <<N(vs[i]), v.f[vs[i]]>>]
  ELSE IF v.n = 1 THEN LET vs == Sorted(DOMAIN v.src) IN [i \in DOMAIN vs |-> <<S(<<vs[i]>>), v.src[vs[i]]>>]
  ELSE LET rs == SetToSeq(Rolls(v.src, v.n)) IN [i \in DOMAIN rs |-> <<S(rs[i][1]), rs[i][2]>>]

(* all calls made for arguments vs with types tys: sequence of <<argument values, weight>> *)
RECURSIVE Calls(_, _, _, _)
Calls(tys, vs, st, i) ==
  IF i = 0 THEN << << <<>>, 1>> >>
  ELSE LET pre == Calls(tys, vs, st, i - 1)
           ch == IF MustSplit(tys[i], vs[i]) THEN Splits(tys[i], vs[i]) ELSE << <<EasyCast(tys[i], vs[i], st), 1>> >>
       IN TLCEval(FlattenSeq([j \in DOMAIN pre |-> [k \in DOMAIN ch |-> <<Append(pre[j][1], ch[k][1]), WMul(pre[j][2], ch[k][2])>>]]))
BlankArg(tys, vs) == \E i \in DOMAIN tys : tys[i] \in {"N", "S"} /\ vs[i].t = "b"
Split(tys, vs) == \E i \in DOMAIN tys : MustSplit(tys[i], vs[i])
(* result of a call through the casts, Body(args) being the function itself *)
CastCall(tys, vs, st, Body(_)) ==
  IF \E i \in DOMAIN vs : vs[i].t = "err" THEN Err
  ELSE IF \E i \in DOMAIN vs : vs[i].t = "any" THEN Unk
  ELSE IF \E i \in DOMAIN vs : vs[i].t = "none" /\ tys[i] # "-" THEN Unk
  ELSE IF BlankArg(tys, vs) THEN SBlank
  ELSE IF \E i \in DOMAIN vs : vs[i].t = "d" /\ tys[i] = "S" /\ ~OrderKnown(DOMAIN vs[i].src) THEN Unk
  ELSE LET cs == Calls(tys, vs, st, Len(tys))
       IN IF ~Split(tys, vs) THEN Body(cs[1][1])
          ELSE LET rs == TLCEval([j \in DOMAIN cs |-> LET r == Body(cs[j][1])
                                               IN <<IF r.t = "s" THEN N(SumQ(r.q)) ELSE r, cs[j][2]>>])
               IN MixResults(rs, st)

RECURSIVE LibCall(_, _, _, _)
LibCall(name, vs, opt, st) ==
  LET tys == LibTypes(name)
  IN IF name = "gwf" /\ Len(vs) = 2 THEN LibCall(name, Append(vs, N(I(2))), opt, st)        \* damage dice showing one or two are rolled again
     ELSE IF Len(vs) # Len(tys) THEN Unk
     ELSE CastCall(tys, vs, st, LAMBDA a :
            IF \E i \in DOMAIN a : a[i].t = "b" THEN Unk
            ELSE IF \E i \in DOMAIN a : tys[i] = "N" /\ a[i].t # "n" THEN Unk
            ELSE IF name \in {"highest", "lowest", "middle"} /\ a[1].v[2] # 1 THEN Unk
            ELSE IF \E i \in DOMAIN a : a[i].t = "s" /\ \E j \in DOMAIN a[i].q : ~(Dyadic(a[i].q[j]) \/ IsText(a[i].q[j])) THEN Unk
            ELSE IF \E i \in DOMAIN a : (a[i].t = "s" /\ ~OrderKnown({a[i].q[j] : j \in DOMAIN a[i].q}))
                                        \/ (a[i].t = "d" /\ ~OrderKnown(DOMAIN a[i].f)) THEN Unk
            ELSE IF name \in {"highest_of", "lowest_of", "explode", "gwf", "absolute", "sort_slow", "reverse_slow"}
                    /\ \E i \in DOMAIN a : (a[i].t = "n" /\ IsText(a[i].v)) \/ (a[i].t = "d" /\ HasText(a[i].f))
                                            \/ (a[i].t = "s" /\ \E j \in DOMAIN a[i].q : IsText(a[i].q[j])) THEN Unk
            ELSE LibBody(name, a, opt, st))

(* two answers to "are these the same": as dice (same outcomes, same chances) and as sequences (same elements in the same order) *)
SameAsDice(a, b, st) ==
  IF a.t = "err" \/ b.t = "err" THEN Err
  ELSE IF a.t = "b" \/ b.t = "b" THEN N(B(a.t = "b" /\ b.t = "b"))
  ELSE IF a.t \notin {"n", "s", "d"} \/ b.t \notin {"n", "s", "d"} THEN Unk
  ELSE LET x == ToDie(a, st)
           y == ToDie(b, st)
       IN IF x.t # "d" \/ y.t # "d" \/ Support(x.f) = {} \/ Support(y.f) = {} THEN Unk
          ELSE IF Support(x.f) # Support(y.f) THEN N(Zero)
          ELSE LET vs == Sorted(DOMAIN y.f)
               IN IF ~SameDist(x.f, vs, [i \in DOMAIN vs |-> y.f[vs[i]]]) THEN N(Zero)
                  ELSE IF DOMAIN x.f = DOMAIN y.f THEN N(One) ELSE Unk          \* up to outcomes of weight 0
SameAsSeqs(a, b) ==
  IF a.t \in {"err", "d", "b"} \/ b.t \in {"err", "d", "b"} THEN Err
  ELSE LET x == MkSeq(<<a>>)
           y == MkSeq(<<b>>)
       IN IF x.t = "err" \/ y.t = "err" THEN Err ELSE IF x.t # "s" \/ y.t # "s" THEN Unk ELSE N(B(x.q = y.q))

BinOps == ArithOps \cup CmpOps \cup BoolOps
UnOps == {"neg", "pos", "not", "abs", "floor", "ceil", "trunc", "len", "bool"}

(* & and | of two plain numbers are the host language's bit operators unless the dice language's own (my) are used *)
BothInts(a) == a[1].t = "n" /\ a[2].t = "n"
PlainBool(op, a) == IF a[1].v \in {Zero, One} /\ a[2].v \in {Zero, One} THEN N(NOp(op, a[1].v, a[2].v)) ELSE Unk

(* a plain list or range of the host language is only known to dice, and to sequences in comparisons and selections *)
Raw(e) == e.op \in {"list", "range"}
HostOnly(e, a) == \E i \in 1..2 : Raw(e.a[i]) /\ a[3 - i].t # "d"
                                  /\ ~(e.op \in CmpOps \cup {"at"} /\ a[3 - i].t = "s" /\ ~Raw(e.a[3 - i]))

RECURSIVE Eval(_, _, _)
RECURSIVE EvalAll(_, _, _)
RECURSIVE CallFn(_, _, _, _)
EvalAll(es, env, st) == TLCEval([i \in DOMAIN es |-> Eval(es[i], env, st)])
(* call of a user function fn = [ty |-> types, dec |-> "cast" | "type" | "depth" | "none", body |-> tree] *)
CallFn(fn, vs, env, st) ==
  LET limited == fn.dec \in {"cast", "depth"}
      casting == fn.dec \in {"cast", "type"}
      d1 == IF limited THEN env.depth + 1 ELSE env.depth
      Body(a) == Eval(fn.body, [p |-> a, x |-> env.x, depth |-> d1, fn |-> fn], st)
      tys == IF casting THEN fn.ty ELSE [i \in DOMAIN fn.ty |-> "-"]
      r == CastCall(tys, vs, st, Body)
  IN IF \E i \in DOMAIN vs : vs[i].t = "err" THEN Err
     ELSE IF limited /\ env.depth >= st.maxdepth THEN Blank
     ELSE IF limited /\ r.t = "none" THEN Blank ELSE r
Eval(e, env, st) ==
  CASE e.op = "n" -> N(e.v)
    [] e.op = "text" -> N(TextOf(e.k))
    [] e.op = "rv" -> BuildDie(e, st)
    [] e.op = "const" -> Die(ConstDist(e.v), st)
    [] e.op = "blank" -> Blank
    [] e.op = "none" -> None
    [] e.op = "p" -> env.p[e.i]
    [] e.op = "x" -> IF env.x[e.i].t \in {"err", "none"} THEN Unk ELSE env.x[e.i]
    [] e.op \in {"seq", "list"} -> MkSeq(EvalAll(e.a, env, st))
    [] e.op = "range" -> S([i \in DOMAIN Span(e.lo, e.hi) |-> I(e.lo + i - 1)])
    [] e.op = "fromseq" -> LET v == MkSeq(EvalAll(e.a, env, st)) IN IF v.t # "s" THEN v ELSE ToDie(v, st)
    [] e.op \in BinOps -> LET a == EvalAll(e.a, env, st)
                          IN IF HostOnly(e, a) THEN Unk
                             ELSE IF e.op \in BoolOps /\ ~Has(e, "my") /\ BothInts(a) THEN PlainBool(e.op, a)
                             ELSE BinOp(e.op, a[1], a[2], st)
    [] e.op \in UnOps -> LET a == Eval(e.a[1], env, st)
                         IN IF e.op \in {"not", "len"} /\ a.t = "n" /\ ~Has(e, "my") THEN Unk     \* a plain Python int
                            ELSE UnOp(e.op, a, st)
    [] e.op = "round" -> RoundOp(Eval(e.a[1], env, st), IF Len(e.a) = 1 THEN N(Zero) ELSE Eval(e.a[2], env, st), st)
    \* a fractional number, even one written as 6.0, is rolled as the die of its only face; so is a text given as the sides
    [] e.op = "roll" -> LET c == EvalAll(e.a, env, st)
                            last == Len(c)
                            a == IF (e.a[last].op = "n" /\ Has(e.a[last], "fl")) \/ (last = 2 /\ e.a[last].op = "text" /\ Has(e.a[last], "raw")) THEN TLCEval([c EXCEPT ![last] = S(<<c[last].v>>)]) ELSE c
                        IN IF Len(a) = 1 THEN Roll(N(One), a[1], st) ELSE Roll(a[1], a[2], st)
    [] e.op = "rollstr" -> Roll(N(I(e.n)), N(I(e.k)), st)
    [] e.op = "at" -> LET a == EvalAll(e.a, env, st)
                      IN IF (a[1].t = "n" /\ a[2].t = "n" /\ ~Has(e, "my")) \/ HostOnly(e, a) THEN Unk ELSE At(a[1], a[2], st)
    [] e.op = "mix" -> LET a == EvalAll(e.a, env, st)
                       IN IF Len(a) # Len(e.w) THEN Unk ELSE MixResults([i \in DOMAIN a |-> <<a[i], e.w[i]>>], st)
    [] e.op = "filter" -> LET a == EvalAll(e.a, env, st)
                              q == MkSeq(<<a[2]>>)
                          IN IF a[1].t = "err" \/ q.t = "err" THEN Err ELSE IF a[1].t # "d" \/ q.t # "s" THEN Unk
                             ELSE LET keep == {v \in DOMAIN a[1].f : \A i \in DOMAIN q.q : q.q[i] # v}
                                  IN IF keep = {} THEN Die(Zeroish, st) ELSE Die([v \in keep |-> a[1].f[v]], st)
    [] e.op = "samedie" -> LET a == EvalAll(e.a, env, st) IN SameAsDice(a[1], a[2], st)
    [] e.op = "sameseq" -> LET a == EvalAll(e.a, env, st) IN SameAsSeqs(a[1], a[2])
    [] e.op = "lib" -> LibCall(e.f, EvalAll(e.a, env, st), IF Has(e, "depth") THEN e.depth ELSE -1, st)
    [] e.op = "call" -> CallFn(e.fn, EvalAll(e.a, env, st), env, st)
    [] e.op = "self" -> CallFn(env.fn, EvalAll(e.a, env, st), env, st)
    [] e.op = "if" -> LET c == Eval(e.c, env, st)
                      IN IF c.t = "err" THEN Err ELSE IF c.t \in {"d", "b"} THEN Err ELSE IF c.t # "n" THEN Unk
                         ELSE IF c.v # Zero THEN Eval(e.a[1], env, st) ELSE Eval(e.a[2], env, st)
    [] e.op = "raise" -> Err
    [] e.op = "loose" -> Unk                  \* evaluated, but left open here
    [] OTHER -> Unk
TopEnv(store) == [p |-> <<>>, x |-> store, depth |-> 0, fn |-> [ty |-> <<>>, dec |-> "none", body |-> [op |-> "none"]]]

(* ---------------- does an observed value agree with the specified one? ---------------- *)
(* observed: [t: "n", v] | [t: "s", q] | [t: "d", v: outcomes, w: residues, g: gcd, L: length] | [t: "b", L] | "none" | "err" | other *)
StrictAsc(q) == \A i \in 1..(Len(q) - 1) : NLess(q[i], q[i + 1]) \/ ~Comparable(q[i], q[i + 1])
SameValue(s, o) ==
  CASE s.t = "any" -> TRUE
    [] s.t = "err" -> o.t = "err"
    [] s.t = "none" -> o.t = "none"
    [] s.t = "b" -> o.t = "b" /\ o.L = (IF s.sp THEN 1 ELSE 0)
    [] s.t = "s" -> o.t = "s" /\ o.q = s.q
    [] s.t = "n" -> \/ o.t = "n" /\ o.v = s.v
                    \/ o.t = "d" /\ SameDist(ConstDist(s.v), o.v, o.w)
    [] s.t = "d" -> \/ o.t = "d" /\ StrictAsc(o.v) /\ o.L = s.n /\ SameDist(s.f, o.v, o.w) /\ {o.v[i] : i \in DOMAIN o.v} = DOMAIN s.f
                    \/ o.t = "n" /\ s.n = 1 /\ Support(s.f) = {o.v}
(* canonical form of a freshly built die: every outcome kept, weights without common factor *)
Canonical(s, o) == s.t = "d" => (o.t = "d" /\ {o.v[i] : i \in DOMAIN o.v} = DOMAIN s.f /\ Len(o.v) = Cardinality(DOMAIN s.f)
                                  /\ (o.g = 1 \/ Support(s.f) = {}))
=============================================================================
