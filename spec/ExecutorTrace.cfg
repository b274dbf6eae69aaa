SPECIFICATION TSpec
CONSTANTS
    Tasks = {1, 2, 3, 4, 5, 6, 7, 8}
    Workers = {1, 2, 3, 4}
CONSTRAINT Track
INVARIANT Invariants
POSTCONDITION Report
CHECK_DEADLOCK FALSE
