CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Exact Honest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
