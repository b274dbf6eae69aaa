CONSTANTS MaxRows = 3 MaxCols = 2 Radii = {1}
INIT Init
NEXT Next
INVARIANTS Once AsDefined Laws
CHECK_DEADLOCK FALSE
