SPECIFICATION Spec
CONSTANT Flaw = "none"
CONSTANT W = 4
CONSTANT BBits = 2
CONSTANT TBits = 3
CONSTANT MaxKeys = 4
CONSTANT Slack = 0
INVARIANT FindsAll
INVARIANT MergeExact
CHECK_DEADLOCK FALSE
