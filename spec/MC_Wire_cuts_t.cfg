SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2}
  Seeds = {0, 3}
  Trail = 9
  Deliver = TRUE
  What = "both"
INVARIANTS Size Delivered Foreign Places
CHECK_DEADLOCK FALSE
