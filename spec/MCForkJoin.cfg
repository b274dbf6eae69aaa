SPECIFICATION Spec
CONSTANTS
    Callers = {1, 2}
    Workers = {3, 4}
    Blocks = {1, 2}
    Waits = TRUE
    OwnCells = TRUE
INVARIANTS NoRace AsSequential
PROPERTY AllReturn
CHECK_DEADLOCK FALSE
