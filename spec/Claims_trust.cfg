SPECIFICATION Spec
CONSTANTS
  Size = 6
  MaxCount = 255
  ElemMem = 24
  ItemMem = 8
  Strategy = "trust"
  Factor = 100
  Constant = 100
INVARIANTS InBounds Bounded Work
PROPERTY Ends
CHECK_DEADLOCK FALSE
