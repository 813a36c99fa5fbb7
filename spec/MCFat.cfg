SPECIFICATION Spec
CONSTANTS
  Mode = "file"
  Ops = {"ReadFile", "Remove"}
  Depth = 1
  Deep = FALSE
  Emitting = FALSE
VIEW View0
INVARIANTS TypeOK NoDangling Returns Refused
PROPERTIES Passive OthersIntact
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
