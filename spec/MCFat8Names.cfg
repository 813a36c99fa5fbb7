SPECIFICATION Spec
CONSTANTS
  Chars = {32, 46, 65, 97}
  MaxLen = 6
  Emitting = FALSE
INVARIANTS Reversible Consistent
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
