----------------------------- MODULE DepthTrace -----------------------------
(* Checks recorded calls against the call machine.  A reset inside a call may keep the count or start it afresh: both    *)
(* worlds are followed, and the recording must fit at least one of them all along.                                       *)
EXTENDS Depth, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT M             \* (every trace specification has one; not used here)
VARIABLES ws, h, l
tvars == <<ws, h, l>>
Modes == {"keep", "forget"}
TInit == h \in 1..Len(Trace) /\ l = 0 /\ ws = {[m |-> m, w |-> New] : m \in Modes}
Event == Trace[h].ev[l + 1]
Msg(w, e) == e.msg = 0 \/ (e.msg = 1 /\ Warns(w))
Fits(x, e) ==
  LET w == x.w IN
  CASE e.k = "call" -> /\ Ready(w)
                       /\ IF Executes(w, e.lim = 1) THEN e.msg = 0 /\ (e.n > 0 => e.ex = 1) ELSE e.ex = 0 /\ Msg(w, e) /\ e.res = "b"
    [] e.k = "beg" -> CanBegin(w)
    [] e.k = "end" -> w.stack # <<>> /\ Ready(w)
    [] e.k = "ret" -> CanReturn(w) /\ (Top(w).lim => (e.res = (IF IsBlank(w) THEN "b" ELSE "v")))
    [] e.k = "raise" -> w.stack # <<>> /\ Ready(w)
    [] e.k = "prop" -> w.pend /\ w.stack # <<>>
    [] e.k = "catch" -> w.pend
    [] e.k \in {"set", "reset"} -> Ready(w)
    [] e.k = "new" -> TRUE
    [] OTHER -> FALSE
Step(x, e) ==
  LET w == x.w IN
  [x EXCEPT !.w =
    CASE e.k = "call" -> IF Executes(w, e.lim = 1) THEN Push(w, e.lim = 1, e.n) ELSE Truncated(w, e.msg = 1)
      [] e.k = "beg" -> Begin(w)
      [] e.k = "end" -> End(w, e.some = 1)
      [] e.k = "ret" -> Return(w)
      [] e.k = "raise" -> Raise(w)
      [] e.k = "prop" -> Propagate(w)
      [] e.k = "catch" -> Catch(w)
      [] e.k = "set" -> SetMax(w, e.m)
      [] e.k = "reset" -> Reset(w, x.m = "forget")
      [] OTHER -> w]
Next1(e) == {Step(x, e) : x \in {y \in ws : Fits(y, e)}}
TNext == /\ l < Len(Trace[h].ev) /\ l' = l + 1 /\ h' = h
         /\ IF Event.k = "new" THEN ws' = {[m |-> m, w |-> New] : m \in Modes}
            ELSE IF ws = {} THEN ws' = {}                   \* already reported: wait for the next script
            ELSE LET n == Next1(Event)
                 IN IF n = {} THEN PrintT("BAD " \o ToJson([h |-> h, l |-> l + 1, id |-> Trace[h].id, clause |-> Event.k, exp |-> ws])) /\ ws' = {}
                    ELSE ws' = n
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
