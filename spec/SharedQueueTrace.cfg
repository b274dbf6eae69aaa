SPECIFICATION TSpec
CONSTANTS
    Threads = {0, 1, 2, 3, 4}
    Values = {}
CONSTRAINT Track
POSTCONDITION Report
CHECK_DEADLOCK FALSE
