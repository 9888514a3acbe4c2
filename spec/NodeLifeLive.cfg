SPECIFICATION FairSpec
CONSTANT Conns = {1, 2}
CONSTANT Ops = {"dial", "unread"}
INVARIANTS TypeOK DownIsDown
PROPERTIES Stops
CHECK_DEADLOCK FALSE
