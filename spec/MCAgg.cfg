CONSTANTS MaxLength = 4 Below = 3 High = 2
INIT Init
NEXT Next
INVARIANTS SumSound ExtremesSound MedianLaw
CHECK_DEADLOCK FALSE
