SPECIFICATION Spec
CONSTANTS
    Names = {"a", "b"}
    Values = {1, 2}
    Deepest = 3
INVARIANTS Restores Finds Sizes
CHECK_DEADLOCK FALSE
