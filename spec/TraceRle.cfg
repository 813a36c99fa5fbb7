SPECIFICATION TraceSpec
CONSTANT Top = 255
CHECK_DEADLOCK TRUE
ALIAS Where
