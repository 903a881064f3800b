SPECIFICATION Spec
CONSTANTS
  Lens = {0, 1, 2, 3, 5, 9}
  Seeds = {0, 1, 2, 3, 4, 5, 6, 7}
  Trail = 17
  Deliver = FALSE
  What = "record"
INVARIANTS Size Delivered Foreign Places
CHECK_DEADLOCK FALSE
