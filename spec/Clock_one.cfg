SPECIFICATION Spec
CONSTANTS
  Fine = 6
  Coarse = 5
  Hours = 3
  Leap = 7
  Reads = 1
INVARIANTS InRange OneInstant
CHECK_DEADLOCK FALSE
