SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2}
  Seeds = {0, 2, 3}
  Trail = 2
  Deliver = TRUE
  What = "own"
INVARIANTS Size Delivered Foreign Places
CHECK_DEADLOCK FALSE
