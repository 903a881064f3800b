SPECIFICATION Spec
CONSTANTS
  Lens = {1}
  Seeds = {3}
  Trail = 1
  Deliver = TRUE
  What = "pdu"
INVARIANTS Size Delivered Foreign Places
CHECK_DEADLOCK FALSE
