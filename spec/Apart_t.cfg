SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2, 3}
  Types = {"SignalPdu", "AcknowledgePdu"}
  Steps = 2
  Desks = "own"
INVARIANTS Alone Equals
CHECK_DEADLOCK FALSE
