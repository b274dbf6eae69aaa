SPECIFICATION Spec
CONSTANTS
    Threads = {t1, t2}
    Values = {1, 2, 3}
    MaxOps = 5
    Locking = FALSE
INVARIANTS Once MutualExclusion
CHECK_DEADLOCK FALSE
