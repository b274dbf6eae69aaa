SPECIFICATION Spec
CONSTANTS
    Places = 3
    NrFiles = 1
    Longest = 6
    Letters = {44, 32, 65}
    TextSize = 5
INVARIANTS Owned Ends Moves
CHECK_DEADLOCK FALSE
