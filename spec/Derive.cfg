CONSTANT Senders = {"r1", "r2"}
CONSTANT Wallets = {"1", "2"}
CONSTANT Indexes = {"0", "1", "127", "128", "max"}
SPECIFICATION Spec
INVARIANTS Agree Distinct Whole
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
