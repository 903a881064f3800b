SPECIFICATION Spec
CONSTANT Seeds = {3}
INVARIANTS Doors Short
CHECK_DEADLOCK FALSE
