SPECIFICATION TraceSpec
INVARIANTS TypeOK
PROPERTIES ReadOnlyIsInert ContentStable GrowthIsZero WriteIsLocal AppendOnly
CHECK_DEADLOCK TRUE
ALIAS Where
