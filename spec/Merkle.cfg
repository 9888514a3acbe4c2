CONSTANT N = 20
CONSTANT D = 40
SPECIFICATION Spec
INVARIANTS Commits EmitB
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
