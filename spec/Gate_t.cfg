SPECIFICATION Spec
CONSTANT Seeds = {0, 1, 2, 3, 4, 77}
INVARIANTS Doors Short
CHECK_DEADLOCK FALSE
