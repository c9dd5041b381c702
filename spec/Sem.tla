-------------------------------- MODULE Sem --------------------------------
(***************************************************************************)
(* What a program of the dice language does: a big-step interpreter over    *)
(* the trees of module Parser and the values of module Values.              *)
(* The machine state Z:                                                     *)
(*   st: settings   outs: outputs so far <<[v, nm]>>   fns: functions by    *)
(*   signature   vars: variables of the current scope   glob, infn, lset:   *)
(*   global variables, whether inside a function, names the function        *)
(*   assigns (static scoping)   depth: active calls   stat: "ok", "err" or  *)
(*   "unk" (from here on not specified)   done, ret: result reached         *)
(* Options o: dyn (dynamic scoping), opint (operators on plain numbers),    *)
(* frac (the text can make plain numbers that are fractions: operators of    *)
(* opint on those are left open), defs (signatures the program defines).     *)
(***************************************************************************)
EXTENDS Observe, Parser

EmptyFn == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Start(st) == [st |-> st, outs |-> <<>>, fns |-> EmptyFn, vars |-> EmptyFn, glob |-> EmptyFn, infn |-> FALSE, lset |-> {}, depth |-> 0,
              stat |-> "ok", done |-> FALSE, ret |-> None]
Halt(Z, v) == IF v.t = "err" THEN [Z EXCEPT !.stat = "err"] ELSE IF v.t = "any" THEN [Z EXCEPT !.stat = "unk"] ELSE Z
R(v, Z) == [v |-> v, Z |-> Halt(Z, v)]

(* numbers as written *)
RECURSIVE StripZ(_)
StripZ(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZ(Tail(s)) ELSE s
RECURSIVE NumOf(_)
NumOf(s) == IF s = <<>> THEN 0 ELSE 10 * NumOf(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)
IntLit(s) == LET z == StripZ(s) IN IF Len(z) > 9 THEN Unk ELSE N(I(NumOf(z)))
DecLit(a, b) == LET z == StripZ(a) IN IF Len(z) > 3 \/ Len(b) > 6 THEN Unk ELSE N(Norm(NumOf(z) * Pow10(Len(b)) + NumOf(b), Pow10(Len(b))))

(* words of the function library, by signature *)
Xw == <<88>>
Wd(s) == s
LibSig ==
  << << << <<97, 98, 115, 111, 108, 117, 116, 101>>, Xw>>, "absolute">>,
     << <<Xw, <<99, 111, 110, 116, 97, 105, 110, 115>>, Xw>>, "contains">>,
     << << <<99, 111, 117, 110, 116>>, Xw, <<105, 110>>, Xw>>, "count_in">>,
     << << <<101, 120, 112, 108, 111, 100, 101>>, Xw>>, "explode">>,
     << << <<104, 105, 103, 104, 101, 115, 116>>, Xw, <<111, 102>>, Xw>>, "highest">>,
     << << <<108, 111, 119, 101, 115, 116>>, Xw, <<111, 102>>, Xw>>, "lowest">>,
     << << <<109, 105, 100, 100, 108, 101>>, Xw, <<111, 102>>, Xw>>, "middle">>,
     << << <<104, 105, 103, 104, 101, 115, 116>>, <<111, 102>>, Xw, <<97, 110, 100>>, Xw>>, "highest_of">>,
     << << <<108, 111, 119, 101, 115, 116>>, <<111, 102>>, Xw, <<97, 110, 100>>, Xw>>, "lowest_of">>,
     << << <<109, 97, 120, 105, 109, 117, 109>>, <<111, 102>>, Xw>>, "maximum_of">>,
     << << <<114, 101, 118, 101, 114, 115, 101>>, Xw>>, "reverse">>,
     << << <<115, 111, 114, 116>>, Xw>>, "sort">>,
     << << <<116, 114, 117, 101>>, <<100, 105, 118>>, Xw, Xw>>, "true_div">> >>
InLib(sig) == \E i \in DOMAIN LibSig : LibSig[i][1] = sig
LibName(sig) == LibSig[CHOOSE i \in DOMAIN LibSig : LibSig[i][1] = sig][2]

(* settings as a program writes them *)
SettingName(cs) ==
  CASE cs = <<112, 111, 115, 105, 116, 105, 111, 110, 32, 111, 114, 100, 101, 114>> -> "position order"
    [] cs = <<101, 120, 112, 108, 111, 100, 101, 32, 100, 101, 112, 116, 104>> -> "explode depth"
    [] cs = <<109, 97, 120, 105, 109, 117, 109, 32, 102, 117, 110, 99, 116, 105, 111, 110, 32, 100, 101, 112, 116, 104>> -> "maximum function depth"
    [] cs = <<82, 86, 95, 84, 82, 85, 78, 67>> -> "RV_TRUNC"
    [] OTHER -> "unknown"
SettingWord(cs) ==
  CASE cs = <<104, 105, 103, 104, 101, 115, 116, 32, 102, 105, 114, 115, 116>> -> "highest first"
    [] cs = <<108, 111, 119, 101, 115, 116, 32, 102, 105, 114, 115, 116>> -> "lowest first"
    [] cs = <<116, 114, 117, 101>> -> "true" [] cs = <<84, 114, 117, 101>> -> "True"
    [] cs = <<102, 97, 108, 115, 101>> -> "false" [] cs = <<70, 97, 108, 115, 101>> -> "False"
    [] OTHER -> "unknown"

(* ---------------- variables ---------------- *)
Lookup(s, Z, o) ==
  IF o.dyn \/ ~Z.infn THEN (IF s \in DOMAIN Z.vars THEN Z.vars[s] ELSE Err)
  ELSE IF s \in Z.lset THEN (IF s \in DOMAIN Z.vars THEN Z.vars[s] ELSE Unk)     \* assigned later in the function: not specified
  ELSE IF s \in DOMAIN Z.glob THEN Z.glob[s] ELSE Err
RECURSIVE AssignedS(_)
AssignedS(s) == CASE s.k = "assign" -> {s.s} [] s.k = "loop" -> {s.s} \cup SeqUnion(s.body, AssignedS)
                  [] s.k = "ifs" -> SeqUnion(s.b, LAMBDA b : SeqUnion(b.body, AssignedS)) [] OTHER -> {}

(* a string with its variables replaced: [ok: "ok" | "err" | "unk", alts: the texts it may be] *)
(* (a number that is the outcome of a comparison may show as a word of the host language: both are allowed) *)
TrueChars == <<84, 114, 117, 101>>
FalseChars == <<70, 97, 108, 115, 101>>
VarTexts(v) ==
  CASE v.t = "n" -> IF v.v[2] \notin {1, 2, 4, 8} THEN {} ELSE
                    {NumChars(v.v)} \cup (IF v.v = One THEN {TrueChars} ELSE {}) \cup (IF v.v = Zero THEN {FalseChars} ELSE {})
                    \cup (IF v.v[2] = 1 THEN {NumChars(v.v) \o <<46, 48>>} ELSE {})     \* a float holding a whole number
    [] v.t \in {"d", "s", "b"} -> {ValueChars(v)}
    [] OTHER -> {}
RECURSIVE StrAlts(_, _, _)
StrAlts(ps, Z, o) ==
  IF ps = <<>> THEN [c |-> "ok", alts |-> {<<>>}]
  ELSE LET h == Head(ps)
           r == StrAlts(Tail(ps), Z, o)
           v == Lookup(h.s, Z, o)
           hd == IF h.k = "sany" THEN {h.s} ELSE VarTexts(v)
       IN IF h.k = "svar" /\ v.t = "err" THEN [c |-> "err", alts |-> {}]
          ELSE IF h.k = "svar" /\ hd = {} THEN [c |-> "unk", alts |-> {}]
          ELSE IF r.c # "ok" THEN r
          ELSE [c |-> "ok", alts |-> {a \o b : a \in hd, b \in r.alts}]

(* ---------------- expressions ---------------- *)
BinName(op) == CASE op = "+" -> "add" [] op = "-" -> "sub" [] op = "*" -> "mul" [] op = "/" -> "floordiv" [] op = "^" -> "pow"
                 [] op = "=" -> "eq" [] op = "!=" -> "ne" [] op = "<" -> "lt" [] op = ">" -> "gt" [] op = "<=" -> "le" [] op = ">=" -> "ge"
                 [] op = "&" -> "and" [] op = "|" -> "or"
BinVal(op, a, b, Z, o) ==
  IF op = "@" THEN (IF a.t = "n" /\ b.t = "n" /\ (~o.opint \/ o.frac) THEN Unk ELSE At(a, b, Z.st))
  ELSE IF op \in {"&", "|"} /\ a.t = "n" /\ b.t = "n" /\ o.frac THEN Unk
  ELSE IF op \in {"&", "|"} /\ a.t = "n" /\ b.t = "n" /\ ~o.opint THEN PlainBool(BinName(op), <<a, b>>)
  ELSE BinOp(BinName(op), a, b, Z.st)
RangeVals(a, b) ==
  IF a.t \in {"d", "b"} \/ b.t \in {"d", "b"} THEN Err
  ELSE IF a.t # "n" \/ b.t # "n" THEN Unk
  ELSE IF a.v[2] # 1 \/ b.v[2] # 1 THEN Unk
  ELSE IF b.v[1] - a.v[1] > 300 THEN Unk
  ELSE S([i \in DOMAIN Span(a.v[1], b.v[1]) |-> I(a.v[1] + i - 1)])

RECURSIVE EvE(_, _, _)
RECURSIVE EvList(_, _, _, _)
RECURSIVE CallUser(_, _, _, _)
RECURSIVE CallEach(_, _, _, _, _, _)
RECURSIVE ExS(_, _, _)
RECURSIVE ExBlock(_, _, _)
RECURSIVE ExLoop(_, _, _, _)
RECURSIVE ExIf(_, _, _)
(* arguments left to right: [vs, Z] *)
EvList(es, acc, Z, o) ==
  IF es = <<>> \/ Z.stat # "ok" THEN [vs |-> acc, Z |-> Z]
  ELSE LET r == EvE(Head(es), Z, o) IN EvList(Tail(es), Append(acc, r.v), r.Z, o)
EvE(e, Z, o) ==
  IF Z.stat # "ok" THEN R(None, Z)
  ELSE CASE e.k = "num" -> R(IntLit(e.s), Z)
         [] e.k = "dec" -> R(DecLit(e.a, e.b), Z)
         [] e.k = "var" -> R(Lookup(e.s, Z, o), Z)
         [] e.k = "str" -> R(Unk, Z)
         [] e.k = "un" ->
              LET r == EvE(e.a, Z, o)
              IN IF r.Z.stat # "ok" THEN r
                 ELSE IF e.op = "!" /\ r.v.t = "n" /\ (~o.opint \/ o.frac) THEN R(Unk, r.Z)
                 ELSE R(UnOp(CASE e.op = "-" -> "neg" [] e.op = "+" -> "pos" [] e.op = "!" -> "not", r.v, r.Z.st), r.Z)
         [] e.k = "hash" ->
              LET r == EvE(e.a, Z, o)
              IN IF r.Z.stat # "ok" THEN r
                 ELSE IF r.v.t = "n" /\ (~o.opint \/ o.frac) THEN R(Unk, r.Z) ELSE R(UnOp("len", r.v, r.Z.st), r.Z)
         [] e.k = "bin" ->
              LET a == EvE(e.a, Z, o)
                  b == EvE(e.b, a.Z, o)
              IN IF a.Z.stat # "ok" THEN a ELSE IF b.Z.stat # "ok" THEN b ELSE R(BinVal(e.op, a.v, b.v, b.Z, o), b.Z)
         [] e.k = "roll1" ->
              LET a == EvE(e.a, Z, o) IN IF a.Z.stat # "ok" THEN a ELSE R(Roll(N(One), a.v, a.Z.st), a.Z)
         [] e.k = "roll2" ->
              LET a == EvE(e.a, Z, o)
                  b == EvE(e.b, a.Z, o)
              IN IF a.Z.stat # "ok" THEN a ELSE IF b.Z.stat # "ok" THEN b
                 ELSE IF a.v.t = "n" /\ Abs(a.v.v[1]) > 60 THEN R(Unk, b.Z) ELSE R(Roll(a.v, b.v, b.Z.st), b.Z)
         [] e.k = "range" ->
              LET a == EvE(e.a, Z, o)
                  b == EvE(e.b, a.Z, o)
              IN IF a.Z.stat # "ok" THEN a ELSE IF b.Z.stat # "ok" THEN b ELSE R(RangeVals(a.v, b.v), b.Z)
         [] e.k = "seq" -> LET r == EvList(e.a, <<>>, Z, o) IN IF r.Z.stat # "ok" THEN R(None, r.Z) ELSE R(MkSeq(r.vs), r.Z)
         [] e.k = "call" ->
              LET r == EvList(e.a, <<>>, Z, o)
              IN IF r.Z.stat # "ok" THEN R(None, r.Z)
                 ELSE IF e.sig \in DOMAIN r.Z.fns THEN CallUser(r.Z.fns[e.sig], r.vs, r.Z, o)
                 ELSE IF e.sig \in o.defs THEN R(Unk, r.Z)                    \* called before its definition
                 ELSE IF ~InLib(e.sig) THEN R(Unk, r.Z)                      \* only without the check for unknown functions
                 ELSE IF LibName(e.sig) = "true_div" THEN R(BinOp("truediv", r.vs[1], r.vs[2], r.Z.st), r.Z)
                 ELSE R(LibCall(LibName(e.sig), r.vs, -1, r.Z.st), r.Z)

TypeOf(p) == CASE p.ty = <<>> -> "-" [] p.ty = <<115>> -> "S" [] p.ty = <<110>> -> "N" [] p.ty = <<100>> -> "D"
(* the parameters as variables; of equal names only the first counts *)
Bind(ps, vs) == LET names == {ps[i].nm : i \in DOMAIN ps}
                IN [x \in names |-> vs[CHOOSE i \in DOMAIN ps : ps[i].nm = x /\ \A j \in 1..(i-1) : ps[j].nm # x]]
(* one execution of the body with cast arguments vs *)
RunBody(fn, vs, Z, o) ==
  LET own == Bind(fn.ps, vs)
      inner == [Z EXCEPT !.vars = IF o.dyn THEN [x \in DOMAIN Z.vars \cup DOMAIN own |-> IF x \in DOMAIN own THEN own[x] ELSE Z.vars[x]] ELSE own,
                         !.glob = IF Z.infn THEN Z.glob ELSE Z.vars,
                         !.infn = TRUE, !.lset = DOMAIN own \cup SeqUnion(fn.body, AssignedS),
                         !.depth = Z.depth + 1, !.done = FALSE, !.ret = None]
      T == ExBlock(fn.body, inner, o)
  IN [v |-> T.ret, Z |-> [T EXCEPT !.vars = Z.vars, !.glob = Z.glob, !.infn = Z.infn, !.lset = Z.lset, !.depth = Z.depth, !.done = Z.done, !.ret = Z.ret]]
CallEach(fn, cs, j, acc, Z, o) ==
  IF j > Len(cs) \/ Z.stat # "ok" THEN [rs |-> acc, Z |-> Z]
  ELSE LET r == RunBody(fn, cs[j][1], Z, o)
       IN CallEach(fn, cs, j + 1, Append(acc, <<IF r.v.t = "s" THEN N(SumQ(r.v.q)) ELSE r.v, cs[j][2]>>), r.Z, o)
CallUser(fn, vs, Z, o) ==
  LET tys == [i \in DOMAIN fn.ps |-> TypeOf(fn.ps[i])]
      cs == Calls(tys, vs, Z.st, Len(tys))
      one == RunBody(fn, cs[1][1], Z, o)
      many == CallEach(fn, cs, 1, <<>>, Z, o)
      orBlank(v) == IF v.t = "none" THEN Blank ELSE v
  IN IF Z.depth >= Z.st.maxdepth THEN R(Blank, Z)
     ELSE IF \E i \in DOMAIN vs : vs[i].t = "none" THEN R(Unk, Z)
     ELSE IF BlankArg(tys, vs) THEN R(SBlank, Z)
     ELSE IF ~Split(tys, vs) THEN (IF one.Z.stat # "ok" THEN R(None, one.Z) ELSE R(orBlank(one.v), one.Z))
     ELSE IF many.Z.stat # "ok" THEN R(None, many.Z)
     ELSE R(orBlank(MixResults(many.rs, many.Z.st)), many.Z)

(* ---------------- statements ---------------- *)
ExBlock(b, Z, o) == IF b = <<>> \/ Z.stat # "ok" \/ Z.done THEN Z ELSE ExBlock(Tail(b), ExS(Head(b), Z, o), o)
SetVar(Z, s, v) == [Z EXCEPT !.vars = Put(Z.vars, s, v)]
ExLoop(s, q, Z, o) ==
  IF q = <<>> \/ Z.stat # "ok" \/ Z.done THEN Z
  ELSE ExLoop(s, Tail(q), ExBlock(s.body, SetVar(Z, s.s, N(Head(q))), o), o)
ExIf(bs, Z, o) ==
  IF bs = <<>> THEN Z
  ELSE IF Head(bs).c.k = "else" THEN ExBlock(Head(bs).body, Z, o)
  ELSE LET c == EvE(Head(bs).c, Z, o)
       IN IF c.Z.stat # "ok" THEN c.Z
          ELSE IF c.v.t \in {"d", "b"} THEN [c.Z EXCEPT !.stat = "err"]
          ELSE IF c.v.t # "n" THEN [c.Z EXCEPT !.stat = "unk"]
          ELSE IF c.v.v # Zero THEN ExBlock(Head(bs).body, c.Z, o)
          ELSE ExIf(Tail(bs), c.Z, o)
ExSet(s, Z, o) ==
  LET nm == StrAlts(s.nm.p, Z, o)
      name == SettingName(CHOOSE x \in nm.alts : TRUE)
      wd == StrAlts(s.e.p, Z, o)
      word == SettingWord(CHOOSE x \in wd.alts : TRUE)
      r == EvE(s.e, Z, o)
  IN IF nm.c # "ok" THEN [Z EXCEPT !.stat = nm.c]
     ELSE IF Cardinality(nm.alts) # 1 THEN [Z EXCEPT !.stat = "unk"]
     ELSE IF s.e.k = "str"
          THEN IF wd.c # "ok" THEN [Z EXCEPT !.stat = wd.c]
               ELSE IF Cardinality(wd.alts) # 1 THEN [Z EXCEPT !.stat = "unk"]
               ELSE IF name = "unknown" THEN [Z EXCEPT !.stat = "unk"]       \* settings this module does not name
               ELSE IF ValidSet(name, "str", word) THEN [Z EXCEPT !.st = Apply(Z.st, name, "str", word)]
               ELSE IF word = "unknown" /\ name \in {"RV_TRUNC"} THEN [Z EXCEPT !.stat = "unk"] ELSE [Z EXCEPT !.stat = "err"]
     ELSE IF r.Z.stat # "ok" THEN r.Z
     ELSE IF name = "unknown" THEN [r.Z EXCEPT !.stat = "unk"]
     ELSE IF r.v.t = "n" /\ s.e.k \in {"num", "un"} /\ r.v.v[2] = 1
          THEN IF ValidSet(name, "int", r.v.v[1]) THEN [r.Z EXCEPT !.st = Apply(r.Z.st, name, "int", r.v.v[1])] ELSE [r.Z EXCEPT !.stat = "err"]
     ELSE [r.Z EXCEPT !.stat = "unk"]
ExS(s, Z, o) ==
  CASE s.k = "output" ->
         LET r == EvE(s.e, Z, o)
             n == IF s.nm.k = "none" THEN [c |-> "ok", alts |-> {}] ELSE StrAlts(s.nm.p, r.Z, o)
         IN IF r.Z.stat # "ok" THEN r.Z
            ELSE IF n.c = "err" THEN [r.Z EXCEPT !.stat = "err"]
            ELSE [r.Z EXCEPT !.outs = Append(@, [v |-> r.v, named |-> s.nm.k # "none", any |-> n.c = "unk", alts |-> n.alts])]
    [] s.k = "fdef" -> [Z EXCEPT !.fns = Put(Z.fns, s.sig, [ps |-> s.ps, body |-> s.body])]
    [] s.k = "assign" -> LET r == EvE(s.e, Z, o) IN IF r.Z.stat # "ok" THEN r.Z ELSE SetVar(r.Z, s.s, r.v)
    [] s.k = "result" -> LET r == EvE(s.e, Z, o) IN IF r.Z.stat # "ok" THEN r.Z ELSE [r.Z EXCEPT !.ret = r.v, !.done = TRUE]
    [] s.k = "loop" -> LET r == EvE(s.e, Z, o)
                       IN IF r.Z.stat # "ok" THEN r.Z
                          ELSE IF r.v.t = "s" THEN ExLoop(s, r.v.q, r.Z, o) ELSE [r.Z EXCEPT !.stat = "err"]
    [] s.k = "ifs" -> ExIf(s.b, Z, o)
    [] s.k = "set" -> ExSet(s, Z, o)

(* can the text produce fractions: a decimal point, true division, or powers and minus signs *)
CanFrac(toks) == \/ \E i \in DOMAIN toks : toks[i].k = "."
                 \/ \E i \in DOMAIN toks : toks[i].s = <<100, 105, 118>>
                 \/ (\E i \in DOMAIN toks : toks[i].k = "^") /\ (\E i \in DOMAIN toks : toks[i].k = "-")
(* ---------------- the compiler's verdict ---------------- *)
Compile(t, strict) ==
  LET lx == Lex(t)
      p == Parse(lx.toks)
      prog == p.n
  IN IF ~lx.ok THEN [acc |-> "no", why |-> "illegal character", prog |-> <<>>]
     ELSE IF ~p.ok THEN [acc |-> "no", why |-> "syntax", prog |-> <<>>]
     ELSE IF ~(\E i \in DOMAIN prog : OutsS(prog[i])) THEN [acc |-> "no", why |-> "no output", prog |-> <<>>]
     ELSE IF \E i \in DOMAIN prog : ~PlainDefs(prog[i]) THEN [acc |-> "any", why |-> "unnamed function or unknown type", prog |-> <<>>]
     ELSE LET defs == SeqUnion(prog, DefsS)
          IN IF strict /\ \E c \in SeqUnion(prog, CallsS) : c \notin defs /\ ~InLib(c) THEN [acc |-> "no", why |-> "unknown function", prog |-> <<>>]
             ELSE [acc |-> "yes", why |-> "", prog |-> prog]
=============================================================================
