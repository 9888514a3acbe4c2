CONSTANT Mode = "honest"
CONSTANT Role = "incoming"
CONSTANT Owns = {0}
CONSTANT Remotes = {0}
CONSTANT Zone = 900000
CONSTANT Choices = {4}
CONSTANT Hostile = TRUE
CONSTANT Events = 0
CONSTANT Depth = 0
CONSTANT Scene = "two"
CONSTANT Own = 0
CONSTANT Joins = 0
SPECIFICATION SFair
VIEW SView
CONSTRAINT SBound
INVARIANTS SChainValid HonestStays 
PROPERTIES GetsThere SGrowsOnly Apart OnlyRequested
CHECK_DEADLOCK FALSE
