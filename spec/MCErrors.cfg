SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Emitting = FALSE
VIEW View0
INVARIANTS Transitive Inherited Grounded Casting Allowed
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
