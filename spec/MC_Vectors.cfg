SPECIFICATION Spec
CONSTANTS
  Range <- SmallRange
  Third <- Basis
INVARIANT Identities
CHECK_DEADLOCK FALSE
