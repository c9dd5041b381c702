INIT Init
NEXT Next
CONSTANT Kind = "pairs"
CONSTANT Size = 2
CHECK_DEADLOCK FALSE
