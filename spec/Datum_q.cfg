SPECIFICATION Spec
CONSTANTS
  MaxBits = 700
  Followers = {0, 1, 7, 8, 20}
INVARIANTS Aligned Header Data ZeroPad Tight Back Twice Cut
CHECK_DEADLOCK FALSE
