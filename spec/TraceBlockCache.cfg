SPECIFICATION TraceSpec
INVARIANTS TypeOK PendingIsRemembered NothingLost CleanIsStored StorageFits
CHECK_DEADLOCK TRUE
ALIAS Where
