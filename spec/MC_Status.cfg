SPECIFICATION Spec
INVARIANTS Range Whole SameBits
PROPERTY OwnBits
CHECK_DEADLOCK FALSE
