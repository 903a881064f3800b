SPECIFICATION Spec
CONSTANTS
  Size = 4
  MaxCount = 6
  ElemMem = 24
  ItemMem = 8
  Strategy = "unchecked"
  Factor = 100
  Constant = 100
INVARIANTS InBounds Bounded Work
PROPERTY Ends
CHECK_DEADLOCK FALSE
