CONSTANTS
    MaxSteps = 6
    MaxHandles = 2
    Names = {"a", "b"}
    Deep = FALSE
INIT Init
NEXT Next
INVARIANTS
    Tree
    OneValue
    Written
    Used
    Accessible
PROPERTIES
    Kept
    Others
CHECK_DEADLOCK FALSE
