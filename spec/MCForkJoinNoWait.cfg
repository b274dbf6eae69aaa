SPECIFICATION Spec
CONSTANTS
    Callers = {1}
    Workers = {3, 4}
    Blocks = {1, 2}
    Waits = FALSE
    OwnCells = TRUE
INVARIANTS NoRace AsSequential

CHECK_DEADLOCK FALSE
