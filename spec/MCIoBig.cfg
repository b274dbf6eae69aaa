SPECIFICATION Spec
CONSTANTS
    Places = 3
    NrFiles = 2
    Longest = 8
    Letters = {44, 32, 65}
    TextSize = 7
INVARIANTS Owned Ends Moves
CHECK_DEADLOCK FALSE
