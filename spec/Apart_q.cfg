SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Types = {"SignalPdu", "AcknowledgePdu"}
  Steps = 3
  Desks = "own"
INVARIANTS Alone Equals
CHECK_DEADLOCK FALSE
