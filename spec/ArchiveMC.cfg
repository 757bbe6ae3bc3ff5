SPECIFICATION Spec
CONSTANTS
    MaxSize = 8
    MaxDepth = 4
    MaxSilo = 7
    Ops = {"store", "meta", "housekeep", "reindex", "mksilo", "protect", "hold", "lose", "cache"}
CONSTRAINT Depth
VIEW View
PROPERTY AllSteps
INVARIANT Retrievable
CHECK_DEADLOCK FALSE
