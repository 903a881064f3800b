SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Types = {"SignalPdu"}
  Steps = 3
  Desks = "kept"
INVARIANTS Alone
CHECK_DEADLOCK FALSE
