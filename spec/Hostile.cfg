SPECIFICATION Spec
CONSTANT Goals = {"before", "normal", "syncing", "fetching"}
CONSTANT Depth = 2
VIEW View
INVARIANTS TypeOK EmitInit
PROPERTIES NotAsked Gated
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
