CONSTANT Ids <- IdsV
SPECIFICATION Spec
VIEW View
INVARIANTS Once OneList NoZero
PROPERTIES MovedAway Arrived
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
