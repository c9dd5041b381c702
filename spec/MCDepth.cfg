SPECIFICATION Spec
CONSTANT Variant = "good"
CONSTANT Frames = 4
CONSTANT Limits = {1, 2, 3}
CONSTANT Bodies = {1, 2}
CONSTANT Steps = 12
INVARIANTS Restored OnceOnly AtRest CountRight
CHECK_DEADLOCK FALSE
