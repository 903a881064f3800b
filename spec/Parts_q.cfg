SPECIFICATION Spec
CONSTANTS
  PartSizes = {0, 1, 39, 255}
  LengthValues = {0, 8, 255}
INVARIANTS Framed Deaf
CHECK_DEADLOCK FALSE
