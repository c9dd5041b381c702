SPECIFICATION Spec
CONSTANT M = 46337
CONSTANT Variant = "good"
CONSTANT Outcomes = {0, 2, 5}
CONSTANT Shift = 1
CONSTANT Weights = {0, 1, 2}
CONSTANT MaxN = 3
INVARIANTS Sums SumsSplit SortedRolls OrderStatistics Mirror Positions AllPositions EitherOrder MixScale MixOrder MixSelf MixNested Complement Swapped DivMod CastN CastS CastHighest CastMissing HighLow ExplodeOnce FixedSums FixedKth
CHECK_DEADLOCK FALSE
