CONSTANT Seed = 1
CONSTANT Heights = {1, 2, 11, 59, 60, 61, 100, 60000, 60001, 216001, 266000, 266001, 266005, 700000, 700001, 800000}
CONSTANT Shapes = {"inc", "const", "dec", "alt", "half", "half1", "half0", "edge", "edge1", "near", "rand", "rand2", "rand3"}
CONSTANT Rich = FALSE
SPECIFICATION Spec
INVARIANTS Inside Patience
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
