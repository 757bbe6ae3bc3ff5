SPECIFICATION Spec
CONSTANTS
  Trees <- ATrees5
  Before <- ABefore
  CAP = 3
  StowBlocks = FALSE
  EagerMeta = FALSE
INVARIANTS Obliging Kept
PROPERTY Ends
