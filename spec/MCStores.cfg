CONSTANTS
    MaxSteps = 8
    MaxHandles = 2
    Names = {"a"}
    Deep = TRUE
INIT Init
NEXT Next
INVARIANTS
    Tree
    OneValue
    Written
    Used
    Accessible
PROPERTIES
    Kept
    Others
CHECK_DEADLOCK FALSE
