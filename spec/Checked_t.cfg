SPECIFICATION Spec
CONSTANTS
  Lengths = {0, 1, 2, 5, 8, 13}
  Widths = {0, 1, 2, 3, 4, 8, 16}
  MaxOps = 5
INVARIANTS Told InOrder ZerosOnly Lists
PROPERTIES Sticks Asked
CHECK_DEADLOCK FALSE
