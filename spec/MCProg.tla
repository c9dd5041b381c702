------------------------------- MODULE MCProg -------------------------------
(***************************************************************************)
(* Laws of what programs mean, on every program of a pattern of GenText:     *)
(*   Renamed    renaming variables consistently changes no output            *)
(*   Unrolled   a loop over written-out numbers is its body once per number  *)
(*   Nested     else-if is an if inside else                                 *)
(*   DeadCode   what follows a result in a block is never executed           *)
(*   Prefix     a program's beginning gives the beginning of its outputs     *)
(*   Private    a call leaves every variable of its caller as it was         *)
(*   OneScope   functions that only use their parameters do not tell static  *)
(*              from dynamic scoping                                         *)
(* Variant "capture" renames into a name in use: Renamed must reject it.     *)
(* Variant "last" runs a loop for its last value only: Unrolled must.        *)
(***************************************************************************)
EXTENDS Sem
CONSTANTS Kind, Variant, Dyn, Stride
VARIABLES k, text, prog
G == INSTANCE GenText WITH Size <- 2, done <- FALSE
Printed == " !\"#$&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodesOf == <<32, 33, 34, 35, 36, 38, 39>> \o [i \in 1..51 |-> 39 + i] \o <<91, 93, 94, 95, 96>> \o [i \in 1..30 |-> 96 + i]
CodeTable == TLCEval([c \in {SubSeq(Printed, i, i) : i \in 1..Len(Printed)} |-> CodesOf[CHOOSE i \in 1..Len(Printed) : SubSeq(Printed, i, i) = c]])
Chars(s) == [i \in 1..Len(s) |-> CodeTable[SubSeq(s, i, i)]]
Opt(c, t) == [dyn |-> Dyn, opint |-> TRUE, frac |-> FALSE, defs |-> SeqUnion(c, DefsS)]
Tree(t) == LET c == Compile(t, TRUE) IN IF c.acc = "yes" THEN c.prog ELSE <<>>
Exec(p) == ExBlock(p, Start(Default), Opt(p, <<>>))
Seen(Z) == [stat |-> Z.stat, outs |-> [i \in DOMAIN Z.outs |-> Z.outs[i].v], st |-> Z.st]
Prog == prog
(* every Stride-th program, dealt over the workers *)
Deck == TLCEval(SetToSeq(G!All))
Init == k \in 0..15 /\ text = "" /\ prog = <<>>
Next == text = "" /\ k' = k /\ \E j \in 1..(Len(Deck) \div Stride) : (j + k) % 16 = 0 /\ text' = Deck[j * Stride] /\ prog' = Tree(Chars(text'))

(* --- transformations of trees --- *)
RECURSIVE Literal(_)
Literal(e) == CASE e.k = "num" -> TRUE [] e.k = "range" -> e.a.k = "num" /\ e.b.k = "num" [] e.k = "seq" -> \A i \in DOMAIN e.a : Literal(e.a[i]) [] OTHER -> FALSE
RECURSIVE Literals(_)
Literals(e) == CASE e.k = "num" -> <<NumOf(StripZ(e.s))>> [] e.k = "range" -> Span(NumOf(e.a.s), NumOf(e.b.s)) [] e.k = "seq" -> FlattenSeq([i \in DOMAIN e.a |-> Literals(e.a[i])])
NumE(i) == [k |-> "num", s |-> DigitChars(i)]
Unroll(s) == IF s.k = "loop" /\ s.e.k = "seq" /\ Literal(s.e)
             THEN LET q == Literals(s.e)
                      from == IF Variant = "last" /\ q # <<>> THEN Len(q) ELSE 1
                  IN FlattenSeq([i \in 1..(Len(q) - from + 1) |-> <<[k |-> "assign", s |-> s.s, e |-> NumE(q[from + i - 1])]>> \o s.body]) ELSE <<s>>
RECURSIVE NestIf(_)
NestIf(s) == IF s.k # "ifs" \/ Len(s.b) < 2 THEN s
             ELSE IF s.b[2].c.k = "else" THEN s
             ELSE [s EXCEPT !.b = <<s.b[1], [c |-> [k |-> "else"], body |-> <<NestIf([s EXCEPT !.b = Tail(s.b)])>>]>>]
Cut(q) == IF \E i \in DOMAIN q : q[i].k = "result" THEN SubSeq(q, 1, CHOOSE i \in DOMAIN q : q[i].k = "result" /\ \A j \in 1..(i - 1) : q[j].k # "result") ELSE q
CutIn(s) == IF s.k \in {"loop", "fdef"} THEN <<[s EXCEPT !.body = Cut(s.body)]>> ELSE IF s.k = "ifs" THEN <<[s EXCEPT !.b = [j \in DOMAIN s.b |-> [s.b[j] EXCEPT !.body = Cut(s.b[j].body)]]]>> ELSE <<s>>

Change(s, how) == CASE how = "unroll" -> Unroll(s) [] how = "nest" -> <<NestIf(s)>> [] how = "cut" -> CutIn(s)
RECURSIVE Deep(_, _)
Deep(q, how) == FlattenSeq([i \in DOMAIN q |->
  LET s == q[i] IN
  CASE s.k = "loop" -> Change([s EXCEPT !.body = Deep(s.body, how)], how)
    [] s.k = "fdef" -> Change([s EXCEPT !.body = Deep(s.body, how)], how)
    [] s.k = "ifs" -> Change([s EXCEPT !.b = [j \in DOMAIN s.b |-> [s.b[j] EXCEPT !.body = Deep(s.b[j].body, how)]]], how)
    [] OTHER -> Change(s, how)])
(* --- laws --- *)
Open(p) == Exec(p).stat = "unk"
Same(p, q) == Open(p) \/ Seen(Exec(p)) = Seen(Exec(q))
Swap(c) == IF Variant = "capture" THEN (IF c = 88 THEN 80 ELSE IF c = 89 THEN 80 ELSE c) ELSE (CASE c = 88 -> 89 [] c = 89 -> 88 [] c = 80 -> 73 [] c = 73 -> 80 [] OTHER -> c)
Renamed == LET t == Chars(text) IN Same(Prog, Tree([i \in DOMAIN t |-> Swap(t[i])]))
Unrolled == Same(Prog, Deep(Prog, "unroll"))
Nested == Same(Prog, Deep(Prog, "nest"))
DeadCode == Same(Prog, Deep(Prog, "cut"))
Starts(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Prefix == \A m \in 0..Len(Prog) : Starts(Seen(Exec(SubSeq(Prog, 1, m))).outs, Seen(Exec(Prog)).outs)
CallF == [k |-> "call", sig |-> <<<<102>>, <<88>>>>, a |-> <<NumE(2)>>]
Private == \A m \in 0..Len(Prog) :
             LET Z == Exec(SubSeq(Prog, 1, m))
                 Y == EvE(CallF, Z, Opt(Prog, <<>>)).Z
             IN Z.stat = "ok" /\ Y.stat = "ok" => Y.vars = Z.vars /\ Y.glob = Z.glob /\ Y.infn = Z.infn /\ Y.depth = Z.depth /\ Y.ret = Z.ret /\ Y.done = Z.done
(* variables a statement reads or writes, found in its text: only P (80) and I (73) *)
RECURSIVE ExprVars(_)
ExprVars(e) == CASE e.k = "var" -> {e.s} [] e.k \in {"bin", "roll2", "range"} -> ExprVars(e.a) \cup ExprVars(e.b) [] e.k \in {"un", "hash", "roll1"} -> ExprVars(e.a)
                 [] e.k \in {"seq", "call"} -> UNION {ExprVars(e.a[i]) : i \in DOMAIN e.a} [] OTHER -> {}
RECURSIVE StVars(_)
StVars(q) == UNION {CASE q[i].k \in {"output", "result"} -> ExprVars(q[i].e) [] q[i].k = "assign" -> {q[i].s} \cup ExprVars(q[i].e)
                      [] q[i].k = "loop" -> {q[i].s} \cup ExprVars(q[i].e) \cup StVars(q[i].body)
                      [] q[i].k = "ifs" -> UNION {(IF q[i].b[j].c.k = "else" THEN {} ELSE ExprVars(q[i].b[j].c)) \cup StVars(q[i].b[j].body) : j \in DOMAIN q[i].b} [] OTHER -> {} : i \in DOMAIN q}
OwnOnly == \A i \in DOMAIN Prog : Prog[i].k = "fdef" => StVars(Prog[i].body) \subseteq {Prog[i].ps[j].nm : j \in DOMAIN Prog[i].ps}
OneScope == OwnOnly => LET o == Opt(Prog, <<>>)
                           a == ExBlock(Prog, Start(Default), o)
                           b == ExBlock(Prog, Start(Default), [o EXCEPT !.dyn = ~Dyn])
                       IN a.stat = "unk" \/ b.stat = "unk" \/ Seen(a) = Seen(b)
=============================================================================
