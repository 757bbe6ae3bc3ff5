SPECIFICATION Spec
CONSTANT Deep = FALSE
CONSTANT Flaw = "none"
CONSTANT Crashes = 1
INVARIANT NoOverflow
INVARIANT NoneFails
INVARIANT NoDangling
INVARIANT Whole
INVARIANT Acked
INVARIANT ReaderFine
INVARIANT Complete
INVARIANT NoHold
PROPERTY AppendOnly
PROPERTY OnlyHolder
PROPERTY NoneLost
PROPERTY AllEnd
CHECK_DEADLOCK FALSE
