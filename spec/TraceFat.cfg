SPECIFICATION TraceSpec
INVARIANTS NoDangling
CHECK_DEADLOCK TRUE
ALIAS Where
