CONSTANT Txs = {1, 2, 3}
CONSTANT MaxLen = 3
CONSTANT Confirmed = {{}, {1}, {2, 3}}
CONSTANT SizeHeights = {1, 30000, 60000, 60001, 216001, 300000, 499999, 500000, 600000, 700000, 700001, 800000}
SPECIFICATION Spec
INVARIANTS Unique
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
