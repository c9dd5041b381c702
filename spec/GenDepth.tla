------------------------------ MODULE GenDepth ------------------------------
(* Enumerates the behaviours of the call machine up to Steps choices, as scripts for the real code: a script is the sequence of *)
(* choices; where one call ends or unwinds is the machine's, so these are left out. *)
EXTENDS Depth, Json, TLC
CONSTANTS Frames, Limits, Bodies, Steps
VARIABLES w, log
Init == w = New /\ log = <<>>
Do(op) == log' = Append(log, op)
RECURSIVE Settle(_)
Settle(v) == IF CanBegin(v) THEN Settle(Begin(v)) ELSE IF CanReturn(v) THEN Settle(Return(v)) ELSE v
Next ==
  /\ Len(log) < Steps
  /\ \/ \E lim \in BOOLEAN, k \in Bodies :
          /\ Ready(w) /\ Len(w.stack) < Frames /\ (lim \/ k = 1)
          /\ w' = (IF Executes(w, lim) THEN Settle(Push(w, lim, k)) ELSE Truncated(w, TRUE))
          /\ Do([k |-> "call", lim |-> IF lim THEN 1 ELSE 0, n |-> k])
     \/ w.stack # <<>> /\ Ready(w) /\ \E some \in {0, 1} : w' = Settle(End(w, some = 1)) /\ Do([k |-> "end", some |-> some])
     \/ w.stack # <<>> /\ Ready(w) /\ w' = Raise(w) /\ Do([k |-> "raise"])
     \/ w.pend /\ w.stack # <<>> /\ w' = Propagate(w) /\ Do([k |-> "prop"])
     \/ w.pend /\ w' = Settle(Catch(w)) /\ Do([k |-> "catch"])
     \/ Ready(w) /\ \E m \in Limits : m # w.max /\ w' = SetMax(w, m) /\ Do([k |-> "set", m |-> m])
     \/ Ready(w) /\ (w.max # DefaultMax \/ w.cur > 0) /\ w' = Reset(w, FALSE) /\ Do([k |-> "reset"])
Emit == Len(log) = Steps => PrintT("SCRIPT " \o ToJson(log))
=============================================================================
