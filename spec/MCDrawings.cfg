CONSTANTS
    MaxStatements = 2
    Rich = FALSE
    MaxAssignments = 5
INIT AllInit
NEXT AllNext
INVARIANTS
    DrawnTree
    Nested
    ControlDrawn
    FlowDrawn
    KeepsValues
    SimplifiedOnce
    NothingUsedOnce
CHECK_DEADLOCK FALSE
