CONSTANT N = 3
SPECIFICATION Spec
INVARIANTS Noise Order Junk Good
CHECK_DEADLOCK FALSE
