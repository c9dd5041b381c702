SPECIFICATION Spec
CONSTANT M = 46337
CONSTANT Variant = "good"
CONSTANT Cap = 2
INVARIANTS SameAnswer
CHECK_DEADLOCK FALSE
