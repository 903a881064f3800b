SPECIFICATION Spec
CONSTANTS
  Size = 12
  MaxCount = 15
  ElemMem = 24
  ItemMem = 8
  Strategy = "clamp"
  Factor = 100
  Constant = 100
INVARIANTS InBounds Bounded Work
PROPERTY Ends
CHECK_DEADLOCK FALSE
