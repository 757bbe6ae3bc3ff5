SPECIFICATION Spec
CONSTANTS
  Trees <- ATrees
  Before <- ABefore
  CAP = 2
  StowBlocks = FALSE
  EagerMeta = FALSE
INVARIANTS Obliging Kept
PROPERTY Ends
