CONSTANT Ids <- IdsV
SPECIFICATION LinSpec
VIEW LinView
INVARIANTS Once OneList NoZero LinEmit
CHECK_DEADLOCK FALSE
