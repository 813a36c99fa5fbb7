SPECIFICATION Spec
CONSTANTS
  Emitting = FALSE
  Deep = FALSE
VIEW View0
INVARIANTS Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
