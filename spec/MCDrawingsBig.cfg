CONSTANTS
    MaxStatements = 2
    Rich = TRUE
    MaxAssignments = 7
INIT AllInit
NEXT AllNext
INVARIANTS
    DrawnTree
    Nested
    ControlDrawn
    FlowDrawn
    KeepsValues
    SimplifiedOnce
    NothingUsedOnce
CHECK_DEADLOCK FALSE
