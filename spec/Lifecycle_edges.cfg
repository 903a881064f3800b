SPECIFICATION Spec
CONSTANTS
  Chosen = {"TransmitterPdu", "ActionRequestPdu"}
  Ceiling = 300
  Depth = 6
  Edges = TRUE
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT Edge
CHECK_DEADLOCK FALSE
