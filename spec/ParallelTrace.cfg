SPECIFICATION TSpec
CONSTRAINT Track
POSTCONDITION Report
VIEW Position
CHECK_DEADLOCK FALSE
