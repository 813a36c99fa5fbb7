SPECIFICATION Spec
CONSTANTS
    MaxBlocks = 2
    InitBlocks = 2
    BlockSize = 2
    Bytes = {1}
    MaxData = 3
    Kind = "cb"
    Emitting = FALSE
VIEW View0
INVARIANTS TypeOK PendingIsRemembered NothingLost CleanIsStored StorageFits
PROPERTIES RefusedHasNoEffect StorageOnlyChangesWhenSaving ViewStable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK TRUE
