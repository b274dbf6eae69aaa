SPECIFICATION Spec
CONSTANTS
    Tasks = {1, 2}
    Workers = {w1, w2}
    Submitters = {s1, s2}
    Timeouts = FALSE
    Spurious = FALSE
INVARIANTS MutexOK RunsOnce ExecutorInvariants
PROPERTIES EventuallyRun
