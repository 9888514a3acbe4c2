SPECIFICATION Spec
VIEW View
INVARIANTS OnePerIndex TopIsHighest EmitInit
PROPERTIES Grows RefusedNoTrace
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
