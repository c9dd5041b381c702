------------------------------- MODULE Depth -------------------------------
(***************************************************************************)
(* The machine behind limited function calls.  A limited call is executed    *)
(* when fewer than max limited calls are active; its body runs once, or as    *)
(* often as a cast needs; it ends by a result, by no result, or by an         *)
(* exception that unwinds calls until it is caught.  Settings may change at   *)
(* any moment; a reset may also start the count afresh (mode "forget").       *)
(*                                                                           *)
(* Frames: [lim: counted?, saved: the count before the call, left: bodies     *)
(* still to run, in: inside a body?, some: has a body given a result?]        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Variant        \* "good", or a broken design the checker must reject
DefaultMax == 10
New == [stack |-> <<>>, cur |-> 0, max |-> DefaultMax, warned |-> FALSE, pend |-> FALSE]
Top(w) == w.stack[Len(w.stack)]
InBody(w) == IF w.stack = <<>> THEN TRUE ELSE Top(w).in
Ready(w) == ~w.pend /\ InBody(w)                    \* the program can do something
Limited(w) == Cardinality({i \in DOMAIN w.stack : w.stack[i].lim})
Over(w) == CASE Variant = "eq" -> w.cur = w.max [] OTHER -> w.cur >= w.max
Executes(w, lim) == ~lim \/ ~Over(w)
Warns(w) == ~w.warned                               \* a truncated call may show the message only now
Push(w, lim, k) == [w EXCEPT !.stack = Append(@, [lim |-> lim, saved |-> w.cur, left |-> k, in |-> FALSE, some |-> FALSE]),
                             !.cur = IF lim THEN @ + 1 ELSE @]
Truncated(w, msg) == [w EXCEPT !.warned = @ \/ msg]
Begin(w) == [w EXCEPT !.stack[Len(w.stack)].in = TRUE, !.stack[Len(w.stack)].left = @ - 1]
End(w, some) == [w EXCEPT !.stack[Len(w.stack)].in = FALSE, !.stack[Len(w.stack)].some = @ \/ some]
Pop(w, leak) == LET f == Top(w)
                IN [w EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1),
                             !.cur = IF leak \/ ~f.lim THEN @ ELSE IF Variant = "decrement" THEN @ - 1 ELSE f.saved]
CanReturn(w) == ~w.pend /\ w.stack # <<>> /\ ~Top(w).in /\ Top(w).left = 0
CanBegin(w) == ~w.pend /\ w.stack # <<>> /\ ~Top(w).in /\ Top(w).left > 0
Return(w) == Pop(w, FALSE)
IsBlank(w) == ~Top(w).some                          \* the value a returning call gives
Raise(w) == [Pop(w, Variant = "leak") EXCEPT !.pend = TRUE]
Propagate(w) == Pop(w, Variant = "leak")
Catch(w) == [w EXCEPT !.pend = FALSE]
SetMax(w, m) == [w EXCEPT !.max = m, !.warned = IF Variant = "rewarn" THEN FALSE ELSE @]
Reset(w, forget) == [w EXCEPT !.max = DefaultMax, !.warned = FALSE, !.cur = IF forget THEN 0 ELSE @]
=============================================================================
