SPECIFICATION Spec
CONSTANTS
    Mode = "plain"
    BlockSize = 2
    InitBlocks = 1
    Cap = 2
    Emitting = FALSE
VIEW View0
INVARIANTS TypeOK
PROPERTIES ReadOnlyIsInert ContentStable GrowthIsZero WriteIsLocal AppendOnly
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
