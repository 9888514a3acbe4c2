CONSTANT Mode = "honest"
CONSTANT Role = "incoming"
CONSTANT Owns = {0, 2}
CONSTANT Remotes = {0}
CONSTANT Zone = 900000
CONSTANT Choices = {2}
CONSTANT Hostile = FALSE
CONSTANT Events = 1
CONSTANT Depth = 0
SPECIFICATION FairSpec
VIEW View
CONSTRAINT Bound
INVARIANTS ChainValid NeverClosed EmitInit
PROPERTIES EventuallySynced GateHolds SecondHandshake DialHolds AsAnnounced Exactly NothingFromClosed ChainGrows OneOutstanding EqualAsksNothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
