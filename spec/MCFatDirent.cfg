SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Emitting = FALSE
VIEW View0
INVARIANTS NoEarly
PROPERTIES Once
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
