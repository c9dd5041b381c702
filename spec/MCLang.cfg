SPECIFICATION Spec
CONSTANT Variant = "good"
CONSTANT BinOps1 = {"|", "=", "<=", "+", "-", "*", "^", "@"}
CONSTANT Depth1 = 2
INVARIANTS FullyWritten Sparse Loose
CHECK_DEADLOCK FALSE
