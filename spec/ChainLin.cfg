CONSTANT Checkpoint = ""
CONSTANT FarZone = TRUE
SPECIFICATION LinSpec
VIEW LinView
INVARIANTS Linked NoneTwice OnlyValid LinEmit
CHECK_DEADLOCK FALSE
