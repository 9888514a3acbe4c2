CONSTANT Heights = {1, 60000, 60001, 216000, 216001, 266000, 266001, 300000, 499999, 500000, 500001, 700000, 700001, 700002}
CONSTANT Pairs = FALSE
SPECIFICATION Spec
INVARIANTS PlainAccepted OnlyScheduled
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
