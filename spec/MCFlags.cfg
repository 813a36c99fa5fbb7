SPECIFICATION Spec
CONSTANTS
  Emitting = FALSE
VIEW View0
INVARIANTS Independent Faithful Sensible
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
