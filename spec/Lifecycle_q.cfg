SPECIFICATION Spec
CONSTANTS
  Chosen = {"TransmitterPdu", "EntityStatePdu", "SignalPdu", "DetonationPdu", "DataPdu", "IntercomControlPdu"}
  Ceiling = 300
  Depth = 5
  Edges = FALSE
VIEW View
CONSTRAINT Bounded
ACTION_CONSTRAINT Edge
INVARIANTS Declared WithinCeiling Identifies Repeats Survives Relayed
PROPERTIES Refusals OnlyAppends AppendsMessage LeavesAlone KeepsBody
CHECK_DEADLOCK FALSE
