CONSTANT Edits = "few"
CONSTANT Long = TRUE
SPECIFICATION Spec
INVARIANTS RoundTrip PrefixFree EmitInit
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
CONSTANT What = "messages"
