CONSTANT Mode = "honest"
CONSTANT Role = "incoming"
CONSTANT Owns = {0}
CONSTANT Remotes = {0}
CONSTANT Zone = 900000
CONSTANT Choices = {4}
CONSTANT Hostile = FALSE
CONSTANT Events = 0
CONSTANT Depth = 0
SPECIFICATION TSpec
VIEW TView
INVARIANTS Honest TEmit TFar
CHECK_DEADLOCK FALSE
