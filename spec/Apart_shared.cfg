SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Types = {"SignalPdu", "AcknowledgePdu"}
  Steps = 3
  Desks = "shared"
INVARIANTS Alone
CHECK_DEADLOCK FALSE
