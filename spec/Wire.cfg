CONSTANT What = "tx"
CONSTANT Rich = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip Canonical PrefixFree EmitInit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
