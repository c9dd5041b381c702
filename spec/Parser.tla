------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The grammar of the dice language.  Each Parse operator takes the tokens   *)
(* and a position and yields [ok, n, i]: the syntax tree and the position    *)
(* after it, or ok = FALSE.                                                  *)
(*   expression: binary operators by precedence, left to right, over         *)
(*     term | term d term | d term                                           *)
(*   a call takes the longest expressions, so a - or + after one continues it *)
(* Trees: num, dec, var, str, seq, range, un, hash, bin, roll1, roll2, call; *)
(* statements: output, fdef, loop, set, result, ifs, assign.                 *)
(***************************************************************************)
EXTENDS Lexer

No == [ok |-> FALSE, n |-> [k |-> "none"], i |-> 0]
Yes(n, i) == [ok |-> TRUE, n |-> n, i |-> i]
K(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
Prec(k) == CASE k = "|" -> 1 [] k = "&" -> 2 [] k \in {"<", ">", "=", "!="} -> 3 [] k \in {"+", "-"} -> 4
             [] k \in {"*", "/"} -> 5 [] k = "^" -> 6 [] k = "@" -> 7 [] OTHER -> 0
Words == {"low", "output", "function", "loop", "over", "named", "set", "to", "if", "else", "result"}
TermStart == {"+", "-", "!", "#", "(", "num", "up", "{", "sany", "svar", "["}
ExprStart == TermStart \cup {"d"}

(* the pieces of a string; adjacent strings are one *)
RECURSIVE PString(_, _, _)
PString(ts, i, acc) == IF K(ts, i) \in {"sany", "svar"} THEN PString(ts, i + 1, Append(acc, ts[i])) ELSE Yes([k |-> "str", p |-> acc], i)

RECURSIVE PTerm(_, _)
RECURSIVE PExpr(_, _, _)
RECURSIVE PBin(_, _, _, _)
RECURSIVE PElems(_, _, _)
RECURSIVE PCall(_, _, _, _)
PUnary(ts, i, mk(_)) == LET r == PTerm(ts, i + 1) IN IF r.ok THEN Yes(mk(r.n), r.i) ELSE No
PTerm(ts, i) ==
  LET k == K(ts, i)
  IN CASE k \in {"+", "-", "!"} -> PUnary(ts, i, LAMBDA x : [k |-> "un", op |-> k, a |-> x])
       [] k = "#" -> PUnary(ts, i, LAMBDA x : [k |-> "hash", a |-> x])
       [] k = "(" -> (LET r == PExpr(ts, i + 1, 1) IN IF r.ok /\ K(ts, r.i) = ")" THEN Yes(r.n, r.i + 1) ELSE No)
       [] k = "num" -> IF K(ts, i + 1) = "." THEN (IF K(ts, i + 2) = "num" THEN Yes([k |-> "dec", a |-> ts[i].s, b |-> ts[i + 2].s], i + 3) ELSE No)
                       ELSE Yes([k |-> "num", s |-> ts[i].s], i + 1)
       [] k = "up" -> Yes([k |-> "var", s |-> ts[i].s], i + 1)
       [] k = "{" -> IF K(ts, i + 1) = "}" THEN Yes([k |-> "seq", a |-> <<>>], i + 2) ELSE PElems(ts, i + 1, <<>>)
       [] k \in {"sany", "svar"} -> PString(ts, i, <<>>)
       [] k = "[" -> PCall(ts, i + 1, <<>>, <<>>)
       [] OTHER -> No
PElems(ts, i, acc) ==
  LET r == PExpr(ts, i, 1)
      e == IF r.ok /\ K(ts, r.i) = ".."
           THEN LET s == PExpr(ts, r.i + 1, 1) IN IF s.ok THEN Yes([k |-> "range", a |-> r.n, b |-> s.n], s.i) ELSE No
           ELSE r
  IN IF ~e.ok THEN No
     ELSE IF K(ts, e.i) = "," THEN PElems(ts, e.i + 1, Append(acc, e.n))
     ELSE IF K(ts, e.i) = "}" THEN Yes([k |-> "seq", a |-> Append(acc, e.n)], e.i + 1)
     ELSE No
PCall(ts, i, sig, args) ==
  LET k == K(ts, i)
  IN IF k \in Words THEN PCall(ts, i + 1, Append(sig, ts[i].s), args)
     ELSE IF k = "]" THEN (IF sig = <<>> THEN No ELSE Yes([k |-> "call", sig |-> sig, a |-> args], i + 1))
     ELSE IF k \in ExprStart
          THEN LET r == PExpr(ts, i, 1) IN IF r.ok THEN PCall(ts, r.i, Append(sig, <<88>>), Append(args, r.n)) ELSE No
     ELSE No
PPrimary(ts, i) ==
  IF K(ts, i) = "d" THEN LET r == PTerm(ts, i + 1) IN IF r.ok THEN Yes([k |-> "roll1", a |-> r.n], r.i) ELSE No
  ELSE LET r == PTerm(ts, i)
       IN IF ~r.ok THEN No
          ELSE IF K(ts, r.i) = "d"
               THEN LET s == PTerm(ts, r.i + 1) IN IF s.ok THEN Yes([k |-> "roll2", a |-> r.n, b |-> s.n], s.i) ELSE No
               ELSE r
PExpr(ts, i, min) == LET r == PPrimary(ts, i) IN IF r.ok THEN PBin(ts, r.n, r.i, min) ELSE No
PBin(ts, left, i, min) ==
  LET k == K(ts, i)
      p == Prec(k)
      two == k \in {"<", ">"} /\ K(ts, i + 1) = "="
      op == IF two THEN (IF k = "<" THEN "<=" ELSE ">=") ELSE k
      r == PExpr(ts, IF two THEN i + 2 ELSE i + 1, p + 1)
  IN IF p = 0 \/ p < min THEN Yes(left, i)
     ELSE IF ~r.ok THEN No
     ELSE PBin(ts, [k |-> "bin", op |-> op, a |-> left, b |-> r.n], r.i, min)

(* ---------------- statements ---------------- *)
RECURSIVE PBlock(_, _, _)      \* statements up to the closing brace or the end
RECURSIVE PStmt(_, _)
RECURSIVE PElse(_, _, _)
RECURSIVE PFname(_, _, _, _)
PBody(ts, i) ==                \* { statements }
  IF K(ts, i) # "{" THEN No
  ELSE LET r == PBlock(ts, i + 1, <<>>) IN IF r.ok /\ K(ts, r.i) = "}" THEN Yes(r.n, r.i + 1) ELSE No
PBlock(ts, i, acc) ==
  IF K(ts, i) \in {"end", "}"} THEN Yes(acc, i)
  ELSE LET r == PStmt(ts, i) IN IF r.ok THEN PBlock(ts, r.i, Append(acc, r.n)) ELSE No
(* function names: words and parameters with or without a type; sig as called, params in order *)
PFname(ts, i, sig, ps) ==
  LET k == K(ts, i)
  IN IF k \in Words \cup {"d"} THEN PFname(ts, i + 1, Append(sig, ts[i].s), ps)
     ELSE IF k = "up"
          THEN IF K(ts, i + 1) = ":"
               THEN (IF K(ts, i + 2) \in {"low", "d"} THEN PFname(ts, i + 3, Append(sig, <<88>>), Append(ps, [nm |-> ts[i].s, ty |-> ts[i + 2].s])) ELSE No)
               ELSE PFname(ts, i + 1, Append(sig, <<88>>), Append(ps, [nm |-> ts[i].s, ty |-> <<>>]))
     ELSE Yes([sig |-> sig, ps |-> ps], i)
PElse(ts, i, acc) ==
  IF K(ts, i) # "else" THEN Yes([k |-> "ifs", b |-> acc], i)
  ELSE IF K(ts, i + 1) = "if"
       THEN LET c == PExpr(ts, i + 2, 1)
                b == PBody(ts, c.i)
            IN IF c.ok /\ b.ok THEN PElse(ts, b.i, Append(acc, [c |-> c.n, body |-> b.n])) ELSE No
       ELSE LET b == PBody(ts, i + 1)
            IN IF b.ok THEN Yes([k |-> "ifs", b |-> Append(acc, [c |-> [k |-> "else"], body |-> b.n])], b.i) ELSE No
PStmt(ts, i) ==
  LET k == K(ts, i)
      e1 == PExpr(ts, i + 1, 1)
      e2 == PExpr(ts, i + 2, 1)
  IN CASE k = "output" ->
            IF ~e1.ok THEN No
            ELSE IF K(ts, e1.i) = "named"
                 THEN (IF K(ts, e1.i + 1) \in {"sany", "svar"} THEN LET s == PString(ts, e1.i + 1, <<>>) IN Yes([k |-> "output", e |-> e1.n, nm |-> s.n], s.i) ELSE No)
                 ELSE Yes([k |-> "output", e |-> e1.n, nm |-> [k |-> "none"]], e1.i)
       [] k = "function" ->
            IF K(ts, i + 1) # ":" THEN No
            ELSE LET f == PFname(ts, i + 2, <<>>, <<>>)
                     b == PBody(ts, f.i)
                 IN IF f.ok /\ b.ok THEN Yes([k |-> "fdef", sig |-> f.n.sig, ps |-> f.n.ps, body |-> b.n], b.i) ELSE No
       [] k = "loop" ->
            IF K(ts, i + 1) = "up" /\ K(ts, i + 2) = "over"
            THEN LET e == PExpr(ts, i + 3, 1)
                     b == PBody(ts, e.i)
                 IN IF e.ok /\ b.ok THEN Yes([k |-> "loop", s |-> ts[i + 1].s, e |-> e.n, body |-> b.n], b.i) ELSE No
            ELSE No
       [] k = "result" -> IF K(ts, i + 1) = ":" /\ e2.ok THEN Yes([k |-> "result", e |-> e2.n], e2.i) ELSE No
       [] k = "set" ->
            IF K(ts, i + 1) \in {"sany", "svar"}
            THEN LET s == PString(ts, i + 1, <<>>)
                     e == PExpr(ts, s.i + 1, 1)
                 IN IF K(ts, s.i) = "to" /\ e.ok THEN Yes([k |-> "set", nm |-> s.n, e |-> e.n], e.i) ELSE No
            ELSE No
       [] k = "if" -> LET b == PBody(ts, e1.i) IN IF e1.ok /\ b.ok THEN PElse(ts, b.i, <<[c |-> e1.n, body |-> b.n]>>) ELSE No
       [] k = "up" -> IF K(ts, i + 1) = ":" /\ e2.ok THEN Yes([k |-> "assign", s |-> ts[i].s, e |-> e2.n], e2.i) ELSE No
       [] OTHER -> No
(* the whole text *)
Parse(ts) == LET r == PBlock(ts, 1, <<>>) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE No

(* ---------------- what is outside the grammar but checked by the compiler ---------------- *)
RECURSIVE CallsE(_)
RECURSIVE CallsS(_)
SeqUnion(q, F(_)) == UNION {F(q[i]) : i \in DOMAIN q}
CallsE(e) ==      \* signatures called in an expression
  CASE e.k \in {"un", "hash", "roll1"} -> CallsE(e.a)
    [] e.k \in {"bin", "roll2", "range"} -> CallsE(e.a) \cup CallsE(e.b)
    [] e.k = "seq" -> SeqUnion(e.a, CallsE)
    [] e.k = "call" -> {e.sig} \cup SeqUnion(e.a, CallsE)
    [] OTHER -> {}
CallsS(s) ==
  CASE s.k \in {"output", "result", "assign", "set"} -> CallsE(s.e)
    [] s.k = "fdef" -> SeqUnion(s.body, CallsS)
    [] s.k = "loop" -> CallsE(s.e) \cup SeqUnion(s.body, CallsS)
    [] s.k = "ifs" -> SeqUnion(s.b, LAMBDA b : CallsE(b.c) \cup SeqUnion(b.body, CallsS))
RECURSIVE DefsS(_)
DefsS(s) == CASE s.k = "fdef" -> {s.sig} \cup SeqUnion(s.body, DefsS) [] s.k = "loop" -> SeqUnion(s.body, DefsS)
              [] s.k = "ifs" -> SeqUnion(s.b, LAMBDA b : SeqUnion(b.body, DefsS)) [] OTHER -> {}
RECURSIVE OutsS(_)
OutsS(s) == CASE s.k = "output" -> TRUE [] s.k \in {"fdef", "loop"} -> \E i \in DOMAIN s.body : OutsS(s.body[i])
              [] s.k = "ifs" -> \E j \in DOMAIN s.b : \E i \in DOMAIN s.b[j].body : OutsS(s.b[j].body[i]) [] OTHER -> FALSE
(* every parameter type is s, n or d; every function has a name *)
RECURSIVE PlainDefs(_)
PlainDefs(s) == CASE s.k = "fdef" -> s.sig # <<>> /\ (\A i \in DOMAIN s.ps : s.ps[i].ty \in {<<>>, <<115>>, <<110>>, <<100>>}) /\ \A i \in DOMAIN s.body : PlainDefs(s.body[i])
                  [] s.k = "loop" -> \A i \in DOMAIN s.body : PlainDefs(s.body[i])
                  [] s.k = "ifs" -> \A j \in DOMAIN s.b : \A i \in DOMAIN s.b[j].body : PlainDefs(s.b[j].body[i])
                  [] OTHER -> TRUE
=============================================================================
