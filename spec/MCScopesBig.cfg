SPECIFICATION Spec
CONSTANTS
    Names = {"a", "b", "c"}
    Values = {1}
    Deepest = 4
INVARIANTS Restores Finds Sizes
CHECK_DEADLOCK FALSE
