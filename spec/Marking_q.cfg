SPECIFICATION Spec
CONSTANTS
  Width = 11
  MaxChars = 5
INVARIANTS Fixed WellFormed CutToFit Unchanged Stable Greedy
CHECK_DEADLOCK FALSE
