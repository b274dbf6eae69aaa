CONSTANTS
    MaxStatements = 2
    Rich = TRUE
INIT Init
NEXT Next
INVARIANTS
    Unambiguous
    Matching
    Closed
    Threaded
    Monotone
CHECK_DEADLOCK FALSE
