SPECIFICATION Spec
CONSTANT High <- AllOctets
INVARIANTS Table Total
CHECK_DEADLOCK FALSE
