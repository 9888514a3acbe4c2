CONSTANT Indexes = {1, 7, 15, 30}
CONSTANT Hashes = {1, 2}
CONSTANT Sizes = {0, 6, 7, 8, 15, 18, 25, 30, 41, 60}
CONSTANT Heights = {0, 1, 2, 7, 8, 15, 16, 19, 30, 31, 49, 50}
SPECIFICATION LinSpec
VIEW LinView
INVARIANTS LinEmit
CHECK_DEADLOCK FALSE
