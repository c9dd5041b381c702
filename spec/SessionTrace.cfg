SPECIFICATION TSpec
CONSTANT M = 46337
CHECK_DEADLOCK FALSE
