INIT Init
NEXT UNext
INVARIANTS UEmit ProperAnswer ProperSettings LastWins
PROPERTY Keeps
CONSTANT M = 46337
CONSTANT Kind = "rolls"
CONSTANT Part = "-"
CONSTANT Steps = 1
CHECK_DEADLOCK FALSE
