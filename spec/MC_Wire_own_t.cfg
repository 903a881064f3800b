SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 3, 5}
  Seeds = {0, 1, 2, 3, 4, 5, 6}
  Trail = 2
  Deliver = TRUE
  What = "own"
INVARIANTS Size Delivered Foreign Places
CHECK_DEADLOCK FALSE
