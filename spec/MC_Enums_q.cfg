SPECIFICATION Spec
CONSTANT High = {0, 1, 2, 39, 128, 255}
INVARIANTS Table Total
CHECK_DEADLOCK FALSE
