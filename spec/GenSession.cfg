INIT Init
NEXT Next
INVARIANTS Emit ProperAnswer ProperSettings LastWins
CONSTANT M = 46337
CONSTANT Kind = "ops"
CONSTANT Part = "blank"
CONSTANT Steps = 1
CHECK_DEADLOCK FALSE
