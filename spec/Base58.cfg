CONSTANT What = "text"
CONSTANT Rich = FALSE
SPECIFICATION Spec
INVARIANTS Exact Inverse
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
