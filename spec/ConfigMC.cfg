CONSTANT N = 2
SPECIFICATION Spec
INVARIANTS Noise Order Junk Good
CHECK_DEADLOCK FALSE
