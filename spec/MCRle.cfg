SPECIFICATION Spec
CONSTANTS
  Top = 2
  Mode = "bytes"
  Depth = 7
  Deep = FALSE
  Emitting = FALSE
VIEW View0
INVARIANTS Lossless Streaming Bounded Canonical Truncated
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
