INIT Init
NEXT Next
INVARIANT Emit
CONSTANT Variant = "good"
CONSTANT Frames = 3
CONSTANT Limits = {1, 2}
CONSTANT Bodies = {1, 2}
CONSTANT Steps = 6
CHECK_DEADLOCK FALSE
