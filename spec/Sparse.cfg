CONSTANT Tops = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS Descending EndsAtGenesis Short Locates
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
