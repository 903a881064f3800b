SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2, 3, 4, 5, 6, 7}
  Sends = 3
  Cuts = {0, 1, 7, 12}
  Junk = 3
INVARIANTS NoGarbage Conserved Prompt
PROPERTY Delivered
CHECK_DEADLOCK FALSE
