----------------------------- MODULE ProgTrace -----------------------------
(***************************************************************************)
(* Checks recorded compilations and runs of programs against the language   *)
(* (Lexer, Parser, Sem).  State: the settings (kn = FALSE while a run the   *)
(* specification leaves open may have changed them) and, per history, the   *)
(* texts compiled so far.  Events:                                          *)
(*   run   text under options: accepted or not; its outputs in order, how   *)
(*         it ended                                                         *)
(*   pure  the same text under the same options compiled again              *)
(*   reset the settings are reset                                           *)
(***************************************************************************)
EXTENDS Sem, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, kn, seen, h, l
tvars == <<st, kn, seen, h, l>>
TInit == st = Default /\ kn = TRUE /\ seen = EmptyFn /\ h \in 1..Len(Trace) /\ l = 0

Event == Trace[h].ev[l + 1]
Report(clause, exp) == PrintT("BAD " \o ToJson([h |-> h, l |-> l + 1, id |-> Trace[h].id, clause |-> clause, exp |-> exp]))
Judge(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)

Blank0(t) == \A i \in DOMAIN t : t[i] \in {9, 10, 11, 12, 13, 32}
OutOk(x, y) == /\ SameValue(x.v, y.v)
               /\ x.named = Has(y, "nm")
               /\ x.named /\ ~x.any => y.nm \in x.alts
(* the first clause a run breaks *)
RunFact(Z, o) ==
  LET a == Z.outs
      b == o.outs
      n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      bad == {i \in 1..n : ~OutOk(a[i], b[i])}
      fin == IF Z.stat = "ok" /\ o.end # "ok" THEN "run failed" ELSE IF Z.stat = "err" /\ o.end = "ok" THEN "run did not fail" ELSE "ok"
  IN IF Has(o, "lost") THEN fin                        \* a failed run whose outputs were not kept
     ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                      IN IF ~SameValue(a[i].v, b[i].v) THEN "output value" ELSE "output name"
     ELSE IF Len(a) > Len(b) THEN "output missing"
     ELSE IF Z.stat = "unk" THEN "ok"
     ELSE IF Len(b) > Len(a) THEN "output too many"
     ELSE fin
(* a result outside every function: whether it ends the program or makes it fail is left open *)
RECURSIVE OuterResult(_)
OuterResult(q) == \E i \in DOMAIN q : \/ q[i].k = "result"
                                      \/ q[i].k = "loop" /\ OuterResult(q[i].body)
                                      \/ q[i].k = "ifs" /\ \E j \in DOMAIN q[i].b : OuterResult(q[i].b[j].body)
Shown(Z) == [stat |-> Z.stat, outs |-> Z.outs]
TRun ==
  /\ Event.k = "run" /\ seen' = seen
  /\ LET c == IF Blank0(Event.t) THEN [acc |-> "no", why |-> "empty", prog |-> <<>>] ELSE Compile(Event.t, Event.strict)
         o == [dyn |-> Event.dyn, opint |-> Event.opint, frac |-> CanFrac(Lex(Event.t).toks), defs |-> SeqUnion(c.prog, DefsS)]
         Z == ExBlock(c.prog, Start(st), o)
     IN IF c.acc = "any" THEN PrintT("UNK") /\ kn' = FALSE /\ st' = st
        ELSE IF c.acc = "no" THEN Judge(Event.o.acc = "no", "accepted: " \o c.why, "no") /\ UNCHANGED <<st, kn>>
        ELSE IF Event.o.acc # "yes" THEN Judge(FALSE, "rejected", "yes") /\ kn' = FALSE /\ st' = st
        ELSE IF Event.o.end = "not run" THEN UNCHANGED <<st, kn>>
        ELSE IF OuterResult(c.prog) THEN PrintT("UNK") /\ kn' = FALSE /\ st' = st
        ELSE IF ~kn THEN PrintT("UNK") /\ UNCHANGED <<st, kn>>
        ELSE LET f == RunFact(Z, Event.o)
             IN /\ Judge(f = "ok", f, Shown(Z))
                /\ IF Z.stat = "unk" THEN PrintT("UNK") /\ kn' = FALSE /\ st' = st ELSE kn' = TRUE /\ st' = Z.st
(* compiling is a function of text and options: the code generated and the options given are the same again *)
TPure == /\ Event.k = "pure"
         /\ IF Event.key \in DOMAIN seen THEN Judge(seen[Event.key] = Event.got, "compilation depends on history", seen[Event.key]) ELSE TRUE
         /\ seen' = IF Event.key \in DOMAIN seen THEN seen ELSE Put(seen, Event.key, Event.got)
         /\ Judge(Event.given = Event.after, "options changed", Event.given)
         /\ UNCHANGED <<st, kn>>
TOption == /\ Event.k = "option"      \* an unknown option is refused
           /\ Judge(Event.refused, "unknown option accepted", TRUE)
           /\ UNCHANGED <<st, kn, seen>>
TReset == Event.k = "reset" /\ st' = Default /\ kn' = TRUE /\ seen' = seen
TNext == /\ l < Len(Trace[h].ev)
         /\ l' = l + 1 /\ h' = h
         /\ (TRun \/ TPure \/ TOption \/ TReset)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
