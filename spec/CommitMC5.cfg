SPECIFICATION Spec
CONSTANT Deep = TRUE
CONSTANT Flaw = "none"
CONSTANT Crashes = 2
INVARIANT NoOverflow
INVARIANT NoneFails
INVARIANT NoDangling
INVARIANT Whole
INVARIANT Acked
INVARIANT ReaderFine
INVARIANT Complete
INVARIANT NoHold
PROPERTY AppendOnly
PROPERTY OnlyHolder
PROPERTY NoneLost
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
