SPECIFICATION Spec
CONSTANTS
  Kinds = {1, 2, 5, 7}
  Sends = 3
  Cuts = {0, 1, 12, 33}
  Junk = 3
INVARIANTS NoGarbage Conserved Prompt
PROPERTY Delivered
CHECK_DEADLOCK FALSE
