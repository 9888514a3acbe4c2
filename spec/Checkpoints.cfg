CONSTANT Indexes = {0, 1, 7, 15, 30}
CONSTANT Hashes = {1, 2}
CONSTANT Sizes = {0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 25, 26, 29, 30, 31, 40, 41, 42, 60}
CONSTANT Heights = {0, 1, 2, 3, 4, 5, 6, 7, 8, 14, 15, 16, 19, 20, 21, 29, 30, 31, 32, 49, 50, 51}
SPECIFICATION Spec
VIEW View
INVARIANTS GenesisFixed Protected Shallow EmitTable
PROPERTY NeverReplaced
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
