------------------------------ MODULE Executor ------------------------------
(***************************************************************************)
(* What a user of the thread pool observes, whatever way it is built.      *)
(* One action per observable step (call, return, start and end of a task,  *)
(* a future becoming ready, start and end of the pool's destruction) and   *)
(* two internal steps: Enqueue (a submission takes effect, somewhere       *)
(* between its call and its return) and Pop (a worker takes the oldest     *)
(* task). ThreadPool.tla, which follows the code, refines this module;     *)
(* ExecutorTrace.tla checks recorded executions of the code against it.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Tasks, Workers

NoTask == 0           \* tasks are positive numbers

VARIABLES
    st,      \* task -> "new" | "calling" | "queued" | "popped" | "running"
             \*         | "done" | "dropped"
    subm,    \* task -> has its submission returned (is there a future)?
    q,       \* accepted tasks that no worker has taken, oldest first
    by,      \* worker -> task it has taken, or NoTask
    runs,    \* task -> number of times it was started
    phase    \* "open" | "closing" | "closed"

evars == <<st, subm, q, by, runs, phase>>

EInit ==
    /\ st = [t \in Tasks |-> "new"]
    /\ subm = [t \in Tasks |-> FALSE]
    /\ q = <<>>
    /\ by = [w \in Workers |-> NoTask]
    /\ runs = [t \in Tasks |-> 0]
    /\ phase = "open"

\* Tasks that are already running may submit tasks themselves, also while
\* the pool is being destroyed.
SubmitCall(t) ==
    /\ st[t] = "new"
    /\ phase # "closed"
    /\ st' = [st EXCEPT ![t] = "calling"]
    /\ UNCHANGED <<subm, q, by, runs, phase>>

Enqueue(t) ==
    /\ st[t] = "calling"
    /\ phase # "closed"
    /\ st' = [st EXCEPT ![t] = "queued"]
    /\ q' = Append(q, t)
    /\ UNCHANGED <<subm, by, runs, phase>>

SubmitRet(t) ==
    /\ st[t] \notin {"new", "calling"}
    /\ ~subm[t]
    /\ subm' = [subm EXCEPT ![t] = TRUE]
    /\ UNCHANGED <<st, q, by, runs, phase>>

Pop(w) ==
    /\ phase # "closed"
    /\ by[w] = NoTask
    /\ q # <<>>
    /\ by' = [by EXCEPT ![w] = Head(q)]
    /\ st' = [st EXCEPT ![Head(q)] = "popped"]
    /\ q' = Tail(q)
    /\ UNCHANGED <<subm, runs, phase>>

Start(w, t) ==
    /\ by[w] = t
    /\ st[t] = "popped"
    /\ st' = [st EXCEPT ![t] = "running"]
    /\ runs' = [runs EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<subm, q, by, phase>>

End(w, t) ==
    /\ by[w] = t
    /\ st[t] = "running"
    /\ st' = [st EXCEPT ![t] = "done"]
    /\ by' = [by EXCEPT ![w] = NoTask]
    /\ UNCHANGED <<subm, q, runs, phase>>

\* A future that is ready: the task's own outcome, or a broken promise for a
\* task the pool gave up on.
Get(t, broken) ==
    /\ subm[t]
    /\ IF broken THEN st[t] = "dropped" ELSE st[t] = "done"
    /\ UNCHANGED evars

CloseCall ==
    /\ phase = "open"
    /\ phase' = "closing"
    /\ UNCHANGED <<st, subm, q, by, runs>>

\* The tasks nobody took are given up during destruction...
Drop ==
    /\ phase = "closing"
    /\ q # <<>>
    /\ st' = [t \in Tasks |-> IF st[t] = "queued" THEN "dropped" ELSE st[t]]
    /\ q' = <<>>
    /\ UNCHANGED <<subm, by, runs, phase>>

\* ... which is over once no worker is at work anymore.
Close ==
    /\ phase = "closing"
    /\ \A w \in Workers: by[w] = NoTask
    /\ \A t \in Tasks: st[t] # "calling"
    /\ st' = [t \in Tasks |-> IF st[t] = "queued" THEN "dropped" ELSE st[t]]
    /\ q' = <<>>
    /\ phase' = "closed"
    /\ UNCHANGED <<subm, by, runs>>

CloseRet ==
    /\ phase = "closed"
    /\ UNCHANGED evars

ENext ==
    \/ \E t \in Tasks: SubmitCall(t) \/ Enqueue(t) \/ SubmitRet(t)
    \/ \E w \in Workers: Pop(w) \/ \E t \in Tasks: Start(w, t) \/ End(w, t)
    \/ CloseCall \/ Drop \/ Close

EFair ==
    /\ \A w \in Workers: WF_evars(Pop(w))
    /\ \A w \in Workers: \A t \in Tasks:
        WF_evars(Start(w, t)) /\ WF_evars(End(w, t))
    /\ \A t \in Tasks: WF_evars(Enqueue(t))
    /\ WF_evars(Close)

ESafeSpec == EInit /\ [][ENext]_evars
ESpec == ESafeSpec /\ EFair

-----------------------------------------------------------------------------
TypeOK ==
    /\ st \in [Tasks -> {"new", "calling", "queued", "popped", "running",
                         "done", "dropped"}]
    /\ subm \in [Tasks -> BOOLEAN]
    /\ q \in Seq(Tasks)
    /\ by \in [Workers -> Tasks \cup {NoTask}]
    /\ phase \in {"open", "closing", "closed"}

\* Never twice; and once as soon as the outcome can be observed.
ExactlyOnce ==
    \A t \in Tasks:
        /\ runs[t] <= 1
        /\ (runs[t] = 1) <=> (st[t] \in {"running", "done"})

\* A task is with one worker at a time; what is queued is with nobody.
OneOwner ==
    /\ \A w1, w2 \in Workers:
        (w1 # w2 /\ by[w1] # NoTask) => by[w1] # by[w2]
    /\ \A i, j \in 1..Len(q): i # j => q[i] # q[j]
    /\ \A t \in Tasks:
        (st[t] = "queued") <=> (\E i \in 1..Len(q): q[i] = t)

\* After destruction nothing runs, and nothing is left undecided.
ClosedIsFinal ==
    phase = "closed" =>
        \A t \in Tasks: st[t] \notin {"queued", "popped", "running"}

\* Tasks are only given up by destruction.
OnlyClosingDrops ==
    \A t \in Tasks: st[t] = "dropped" => phase # "open"

\* Accepted is never lost: the only way out of the queue is through a worker
\* or, at destruction, through a broken promise.
NeverForgotten ==
    [][\A t \in Tasks: st[t] = "queued" =>
        st'[t] \in {"queued", "popped", "dropped"}]_evars

Delivered == \A t \in Tasks: (st[t] = "calling") ~> (st[t] \in {"done", "dropped"})
Terminates == (phase = "closing") ~> (phase = "closed")
=============================================================================
