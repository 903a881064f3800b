SPECIFICATION Spec
CONSTANTS
  Width = 11
  MaxChars = 6
INVARIANTS Fixed WellFormed CutToFit Unchanged Stable Greedy
CHECK_DEADLOCK FALSE
