SPECIFICATION TSpec
CONSTANT Variant = "good"
CHECK_DEADLOCK FALSE
CONSTANT M = 46337
