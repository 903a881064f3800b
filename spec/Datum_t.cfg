SPECIFICATION Spec
CONSTANTS
  MaxBits = 9000
  Followers = {0, 9}
INVARIANTS Aligned Header Data ZeroPad Tight Back Twice Cut
CHECK_DEADLOCK FALSE
