CONSTANTS MaxThreads = 40 MaxSize = 200
INIT Init
NEXT Next
INVARIANTS Sound OneBlock Bound
CHECK_DEADLOCK FALSE
