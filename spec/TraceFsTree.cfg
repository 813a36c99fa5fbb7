SPECIFICATION TraceSpec
INVARIANTS TypeOK
CHECK_DEADLOCK TRUE
ALIAS Where
