SPECIFICATION Spec
INVARIANTS Exact Honest
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
