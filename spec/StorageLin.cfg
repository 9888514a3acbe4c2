SPECIFICATION LinSpec
VIEW LinView
INVARIANTS OnePerIndex LinEmit
CHECK_DEADLOCK FALSE
