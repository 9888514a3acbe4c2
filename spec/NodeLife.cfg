SPECIFICATION Spec
CONSTANT Conns = {1, 2}
CONSTANT Ops = {"dial", "unread"}
VIEW View
INVARIANTS TypeOK DownIsDown
PROPERTIES Isolated
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
