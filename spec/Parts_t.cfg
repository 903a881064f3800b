SPECIFICATION Spec
CONSTANTS
  PartSizes = {0, 1, 8, 39, 40, 128, 255}
  LengthValues = {0, 1, 8, 39, 254, 255}
INVARIANTS Framed Deaf
CHECK_DEADLOCK FALSE
