SPECIFICATION Spec
CONSTANTS
    MaxSize = 8
    MaxDepth = 14
    MaxSilo = 30
    Ops = {"store", "meta", "housekeep", "reindex", "mksilo", "protect", "hold", "lose", "cache"}
INVARIANT Emit
CHECK_DEADLOCK FALSE
