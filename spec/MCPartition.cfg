CONSTANTS MaxThreads = 16 MaxSize = 60
INIT Init
NEXT Next
INVARIANTS Sound OneBlock Bound
CHECK_DEADLOCK FALSE
