----------------------------- MODULE Settings -----------------------------
(* The settings a session carries.  Names and word values are strings; ints are  *)
(* ints; the JSON trace logs a settings call as [name, vt, v] with vt the type of *)
(* the value: "str", "int", "bool", "fn" (a callable) or "other".                 *)
EXTENDS Integers, Sequences

Default == [trunc |-> FALSE, ign |-> FALSE, order |-> "hi", explode |-> 2, maxdepth |-> 10, width |-> 180, printer |-> 0]

LowerTrue == {"true", "True", "TRUE", "tRuE"}
LowerFalse == {"false", "False", "FALSE", "fAlSe"}

(* is the call valid?  (booleans given for integer options are not specified: the driver never logs them) *)
ValidSet(name, vt, v) ==
  CASE name = "position order" -> vt = "str" /\ v \in {"highest first", "lowest first"}
    [] name \in {"explode depth", "maximum function depth", "DEFAULT_OUTPUT_WIDTH"} -> vt = "int" /\ v > 0
    [] name \in {"RV_TRUNC", "RV_IGNORE_ZERO_PROBS"} -> vt = "bool" \/ (vt = "str" /\ v \in LowerTrue \cup LowerFalse)
    [] name = "DEFAULT_PRINT_FN" -> vt = "fn"
    [] OTHER -> FALSE

Flag(vt, v) == IF vt = "bool" THEN v ELSE v \in LowerTrue
Apply(st, name, vt, v) ==
  CASE name = "position order" -> [st EXCEPT !.order = IF v = "lowest first" THEN "lo" ELSE "hi"]
    [] name = "explode depth" -> [st EXCEPT !.explode = v]
    [] name = "maximum function depth" -> [st EXCEPT !.maxdepth = v]
    [] name = "DEFAULT_OUTPUT_WIDTH" -> [st EXCEPT !.width = v]
    [] name = "RV_TRUNC" -> [st EXCEPT !.trunc = Flag(vt, v)]
    [] name = "RV_IGNORE_ZERO_PROBS" -> [st EXCEPT !.ign = Flag(vt, v)]
    [] name = "DEFAULT_PRINT_FN" -> [st EXCEPT !.printer = v]
=============================================================================
