SPECIFICATION Spec
CONSTANTS
    Tasks = {1, 2}
    Workers = {w1, w2}
    Submitters = {s1, s2}
    Timeouts = TRUE
    Spurious = TRUE
INVARIANTS MutexOK RunsOnce ExecutorInvariants
PROPERTIES Refines EventuallyRun EventuallyGone WakesSleeper
