SPECIFICATION Spec
CONSTANT M = 46337
CONSTANT Variant = "good"
CONSTANT Elements = {0, 2, 3}
CONSTANT MaxLen = 2
INVARIANTS BlankNeutral BlankAbsorbs OtherBlank BlankLengths ActsAsSum ActsAsSumRight Counts CountsFlipped Everywhere WithDie Positions1 Positions2 Complementary Mirrored MinusPlus Commutes RollNegative RollByLength RollZero RollBlank PoolSize
CHECK_DEADLOCK FALSE
