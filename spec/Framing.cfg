CONSTANT Lens = {0, 1, 40}
CONSTANT Count = 2
CONSTANT Every = FALSE
SPECIFICATION Spec
INVARIANTS Prompt NothingFromBroken OnlyWhole EmitInit
PROPERTIES NeverTakenBack ErrorIsFinal
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
