SPECIFICATION Spec
CONSTANT Kinds = {"fee"}
CONSTANT Heights = {1, 700000}
CONSTANT Extras = {0, 100, 101, 102, 150, 1000}
CONSTANT Rich = FALSE
INVARIANTS Conserved SpentOnce AddsUp
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
