INIT Init
NEXT Next
CONSTANT M = 46337
CONSTANT Kind = "flow"
CONSTANT Variant = "good"
CONSTANT Stride = 1
CONSTANT Dyn = FALSE
INVARIANTS Renamed Unrolled Nested DeadCode Prefix Private OneScope
CHECK_DEADLOCK FALSE
