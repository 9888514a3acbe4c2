SPECIFICATION Spec
CONSTANT Procs = {1, 2}
CONSTANT NOps = 6
CONSTANT Args = {1, 2}
CONSTANT Shared = FALSE
INVARIANT Alone
PROPERTY Ends
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
