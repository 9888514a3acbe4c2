SPECIFICATION LiveSpec
CONSTANT N = 4
CONSTANT Limit = 2
INVARIANT Bounded Busy
PROPERTY Stops Turns
CHECK_DEADLOCK FALSE
