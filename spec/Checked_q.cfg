SPECIFICATION Spec
CONSTANTS
  Lengths = {0, 1, 3, 8}
  Widths = {0, 1, 2, 8}
  MaxOps = 3
INVARIANTS Told InOrder ZerosOnly Lists
PROPERTIES Sticks Asked
CHECK_DEADLOCK FALSE
