SPECIFICATION Spec
CONSTANT N = 4
CONSTANT Limit = 2
INVARIANT Bounded Busy EmitInit
PROPERTY Keeps Fair
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
