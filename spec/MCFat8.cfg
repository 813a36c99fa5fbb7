SPECIFICATION Spec
CONSTANTS
  Mode = "volume"
  Depth = 3
  Emitting = FALSE
VIEW View0
INVARIANTS TypeOK TablesAgree SpaceAgrees FormattedIsEmpty
PROPERTIES FlushIsLocal MountIsPassive ClusterIsLocal
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
