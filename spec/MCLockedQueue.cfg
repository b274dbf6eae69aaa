SPECIFICATION Spec
CONSTANTS
    Threads = {t1, t2}
    Values = {1, 2, 3}
    MaxOps = 5
    Locking = TRUE
INVARIANTS Once MutualExclusion
PROPERTIES Refines Returns
CHECK_DEADLOCK FALSE
