------------------------------ MODULE MCDepth ------------------------------
(* All behaviours of the call machine within bounds; ghosts: shown counts messages since the last reset, tops the count before each call *)
EXTENDS Depth
CONSTANTS Frames, Limits, Bodies, Steps
VARIABLES w, shown, ghost, forgot, n, bad
vars == <<w, shown, ghost, forgot, n, bad>>
Init == w = New /\ shown = 0 /\ ghost = <<>> /\ forgot = FALSE /\ n = 0 /\ bad = {}
Tick == n < Steps /\ n' = n + 1
DropG == SubSeq(ghost, 1, Len(ghost) - 1)
Wrong(c, name) == IF c THEN {name} ELSE {}
Call(lim, k) ==
  /\ Ready(w) /\ Len(w.stack) < Frames
  /\ IF Executes(w, lim)
     THEN /\ w' = Push(w, lim, k) /\ ghost' = Append(ghost, w.cur) /\ UNCHANGED <<shown, forgot>>
          \* an executed limited call had fewer than max limited calls active (unless a reset started the count afresh)
          /\ bad' = bad \cup Wrong(lim /\ ~forgot /\ Limited(w) >= w.max, "limit exceeded")
     ELSE \E msg \in BOOLEAN :
            /\ msg => Warns(w)
            /\ w' = Truncated(w, msg) /\ shown' = shown + (IF msg THEN 1 ELSE 0) /\ UNCHANGED <<ghost, forgot>>
            /\ bad' = bad \cup Wrong(Limited(w) < w.max, "truncated too early")
Body == CanBegin(w) /\ w' = Begin(w) /\ UNCHANGED <<shown, ghost, forgot, bad>>
Finish == w.stack # <<>> /\ Ready(w) /\ (\E some \in BOOLEAN : w' = End(w, some)) /\ UNCHANGED <<shown, ghost, forgot, bad>>
Left(w1) == Wrong(w1.cur # ghost[Len(ghost)], "depth leaked")
Ret == CanReturn(w) /\ w' = Return(w) /\ ghost' = DropG /\ bad' = bad \cup (IF Top(w).lim THEN Left(w') ELSE {}) /\ UNCHANGED <<shown, forgot>>
Throw == w.stack # <<>> /\ Ready(w) /\ w' = Raise(w) /\ ghost' = DropG /\ bad' = bad \cup (IF Top(w).lim THEN Left(w') ELSE {}) /\ UNCHANGED <<shown, forgot>>
Prop == w.pend /\ w.stack # <<>> /\ w' = Propagate(w) /\ ghost' = DropG /\ bad' = bad \cup (IF Top(w).lim THEN Left(w') ELSE {}) /\ UNCHANGED <<shown, forgot>>
Caught == w.pend /\ w' = Catch(w) /\ UNCHANGED <<shown, ghost, forgot, bad>>
Set == Ready(w) /\ (\E m \in Limits : w' = SetMax(w, m)) /\ UNCHANGED <<shown, ghost, forgot, bad>>
Rst == Ready(w) /\ (\E f \in BOOLEAN : w' = Reset(w, f) /\ forgot' = (IF w.stack = <<>> THEN FALSE ELSE (forgot \/ (f /\ w.cur > 0))))
       /\ shown' = 0 /\ UNCHANGED <<ghost, bad>>
Next == Tick /\ ((\E lim \in BOOLEAN, k \in Bodies : Call(lim, k)) \/ Body \/ Finish \/ Ret \/ Throw \/ Prop \/ Caught \/ Set \/ Rst)
Spec == Init /\ [][Next]_vars
Restored == bad = {}
OnceOnly == shown <= 1
AtRest == w.stack = <<>> => w.cur = 0
CountRight == (~forgot) => w.cur = Limited(w)
=============================================================================
