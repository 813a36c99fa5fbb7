SPECIFICATION TraceSpec
INVARIANTS TypeOK TablesAgree SpaceAgrees
CHECK_DEADLOCK TRUE
ALIAS Where
