SPECIFICATION Spec
CONSTANTS
    Values = {"a", "b", ""}
INVARIANTS Apart Told General
CHECK_DEADLOCK FALSE
