SPECIFICATION Spec
CONSTANTS
    MaxBlocks = 2
    InitBlocks = 2
    BlockSize = 2
    MaxLen = 5
INVARIANTS TypeOK PendingIsRemembered NothingLost CleanIsStored PartOnlyInFlush
PROPERTIES RefusedHasNoEffect StorageOnlyChangesWhenSaving ViewStable TailUntouched
CHECK_DEADLOCK TRUE
