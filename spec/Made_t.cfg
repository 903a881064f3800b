SPECIFICATION Spec
CONSTANTS
  MSeeds = {2, 5, 9}
  MLens = {1}
INVARIANTS Where Apart Sendable
CHECK_DEADLOCK FALSE
