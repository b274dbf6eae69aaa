CONSTANTS
    MaxPrograms = 2
    MaxStatements = 2
    Rich = TRUE
INIT Init
NEXT Next
INVARIANTS
    Rejected
    Sound
    ReadOnce
    Written
    Split
CHECK_DEADLOCK FALSE
