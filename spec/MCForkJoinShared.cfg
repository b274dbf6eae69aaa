SPECIFICATION Spec
CONSTANTS
    Callers = {1}
    Workers = {3, 4}
    Blocks = {1, 2}
    Waits = TRUE
    OwnCells = FALSE
INVARIANTS NoRace AsSequential

CHECK_DEADLOCK FALSE
