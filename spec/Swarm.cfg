CONSTANT Mode = "honest"
CONSTANT Role = "incoming"
CONSTANT Owns = {0}
CONSTANT Remotes = {0}
CONSTANT Zone = 900000
CONSTANT Choices = {4}
CONSTANT Hostile = TRUE
CONSTANT Events = 0
CONSTANT Depth = 0
CONSTANT Scene = "two"
CONSTANT Own = 0
CONSTANT Joins = 0
SPECIFICATION SSpec
VIEW SView
CONSTRAINT SBound
INVARIANTS SChainValid HonestStays SEmitInit
PROPERTIES SGrowsOnly Apart OnlyRequested
ACTION_CONSTRAINT SEmit
CHECK_DEADLOCK FALSE
