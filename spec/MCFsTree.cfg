SPECIFICATION Spec
CONSTANTS
    Mode = "look"
    Depth = 1
    Part = 0
    Parts = 6
    Emitting = FALSE
VIEW View0
INVARIANTS TypeOK IsTree RealPaths
PROPERTIES Permitted NamesStable FailuresAreInert
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK TRUE
