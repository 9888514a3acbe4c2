CONSTANT Mode = "honest"
CONSTANT Role = "incoming"
CONSTANT Owns = {0}
CONSTANT Remotes = {0}
CONSTANT Zone = 0
CONSTANT Choices = {4}
CONSTANT Hostile = TRUE
CONSTANT Events = 0
CONSTANT Depth = 0
CONSTANT Scene = "two"
CONSTANT Own = 0
CONSTANT Joins = 0
CONSTANT Starts = 1
SPECIFICATION DSpec
VIEW DView
CONSTRAINT SBound
INVARIANTS DTypeOK Silent Nothing SChainValid HonestStays DEmitInit
PROPERTIES DGrowsOnly
ACTION_CONSTRAINT DEmit
CHECK_DEADLOCK FALSE
