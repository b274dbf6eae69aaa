SPECIFICATION Spec
CONSTANTS
    Names = {"a", "b"}
    Ids = {1, 2}
    Longest = 2
    Most = 3
INVARIANTS Distinct Parts Found Adding
CHECK_DEADLOCK FALSE
