SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 3}
  Seeds = {0, 1, 2, 3}
  Trail = 9
  Deliver = FALSE
  What = "record"
INVARIANTS Size Delivered Foreign Places
CHECK_DEADLOCK FALSE
