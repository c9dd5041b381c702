---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* Checks recorded sessions against the Session machine.  The trace file     *)
(* has one history per line; all histories are independent initial states,   *)
(* one step per event, and every event gets a verdict: a mismatch is printed *)
(* as a BAD record naming the failing clause, and the history continues with *)
(* the specified state so that later events are judged too.                  *)
(***************************************************************************)
EXTENDS Session, Observe, Huge, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES h, l
tvars == <<st, store, resp, h, l>>
TInit == SInit /\ h \in 1..Len(Trace) /\ l = 0

Event == Trace[h].ev[l + 1]
Report(clause, exp) == PrintT("BAD " \o ToJson([h |-> h, l |-> l + 1, id |-> Trace[h].id, clause |-> clause, exp |-> exp]))
Judge(ok, clause, exp) == IF ok THEN TRUE ELSE Report(clause, exp)

TEval == /\ Event.k = "ev"
         /\ DoEval(Event.e)
         /\ Judge(SameValue(resp', Event.o), "result", resp')
         /\ IF resp'.t = "any" THEN PrintT("UNK") ELSE TRUE        \* counted by the driver: answers the specification leaves open
         /\ Has(Event, "calls") => LET c == CallsFact(Event.e.fn, EvalAll(Event.e.a, TopEnv(store), st), Event.calls, st) IN Judge(c = "ok", c, resp')
         /\ Has(Event, "fs") => Judge(Event.os = Event.fs, "history dependence", resp')
         /\ Has(Event, "strict") => Judge(Canonical(resp', Event.o), "canonical", resp')
TSet == /\ Event.k = "set"
        /\ DoSet(Event.name, Event.vt, Event.v)
        /\ Judge((resp' = Err) = (Event.o.t = "err"), "settings", resp')
TReset == Event.k = "reset" /\ DoReset
(* the event that created the i-th stored value: a value whose meaning is left open still has to stay what it was *)
Creator(i) == LET evs == SelectSeq([k \in 1..l |-> k], LAMBDA k : Trace[h].ev[k].k = "ev") IN Trace[h].ev[evs[i]]
Unchanged(i, o) == LET c == Creator(i).o IN c.t = "err" \/ ToJson(c) = ToJson(o)
TLook == /\ Event.k = "look"
         /\ DoLook(Event.i)
         /\ Judge(IF Stop(resp') THEN Unchanged(Event.i, Event.o) ELSE SameValue(resp', Event.o), "changed", resp')
(* facts observed about a stored or computed value; the store does not change *)
TFact == /\ Event.k = "fact"
         /\ LET v == Eval(Event.e, TopEnv(store), st)
                c == Fact(Event.f, v, Event, st)
            IN Judge(c = "ok", c, v)
         /\ resp' = None /\ UNCHANGED <<st, store>>
(* distributions of very many dice *)
TBig == /\ Event.k = "big"
        /\ LET c == HugeFact(Event.e, Event.o) IN Judge(c = "ok", c, "big")
        /\ resp' = None /\ UNCHANGED <<st, store>>
(* uses of values that answer nothing and change nothing *)
TTouch == Event.k \in {"touch", "touch2"} /\ resp' = None /\ UNCHANGED <<st, store>>
TNext == /\ l < Len(Trace[h].ev)
         /\ l' = l + 1 /\ h' = h
         /\ (TEval \/ TSet \/ TReset \/ TLook \/ TFact \/ TBig \/ TTouch)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
