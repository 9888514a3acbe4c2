CONSTANT Checkpoint = ""
CONSTANT FarZone = TRUE
SPECIFICATION Spec
VIEW View
INVARIANTS TypeOK Linked NoneTwice OnlyValid
PROPERTIES GrowsByOne RefusedNoTrace
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
