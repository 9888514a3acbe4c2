SPECIFICATION Spec
INVARIANTS Bounds EmitState
PROPERTY Monotone
CHECK_DEADLOCK FALSE
