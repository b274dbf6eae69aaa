----------------------------- MODULE ThreadPool -----------------------------
(***************************************************************************)
(* The thread pool the way fern implements it: one action per critical     *)
(* section or atomic access of fern/core/thread_pool.{h,cc} and            *)
(* fern/core/thread_safe_queue.h. The queue has a mutex of its own, so a   *)
(* push, a pop attempt is one action. A submission notifies WITHOUT        *)
(* holding the pool's mutex: a worker that found the queue empty but does  *)
(* not wait yet misses that notification. The code's wait has a timeout    *)
(* (100 ms); Timeouts = FALSE is the design without it, which loses tasks. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Tasks, Workers, Submitters,
    Timeouts,      \* waits end by themselves after a while
    Spurious       \* waits may end for no reason at all

NoTask == 0
None == "none"

VARIABLES
    queue, done, mutex,
    wpc, task,       \* worker: program counter, task it holds
    spc, stask,      \* submitter: program counter, task it submits
    dpc,             \* destructor
    ran, dropped,    \* history: how often each task ran, which were dropped
    finished

vars == <<queue, done, mutex, wpc, task, spc, stask, dpc, ran, dropped,
    finished>>

Init ==
    /\ queue = <<>>
    /\ done = FALSE
    /\ mutex = None
    /\ wpc = [w \in Workers |-> "check"]
    /\ task = [w \in Workers |-> NoTask]
    /\ spc = [s \in Submitters |-> "idle"]
    /\ stask = [s \in Submitters |-> NoTask]
    /\ dpc = "alive"
    /\ ran = [t \in Tasks |-> 0]
    /\ dropped = {}
    /\ finished = {}

Known == {queue[i]: i \in 1..Len(queue)} \cup {task[w]: w \in Workers} \cup
    {stask[s]: s \in Submitters} \cup finished \cup dropped

\* Submission: submit() is called, the task is pushed, one waiter notified.
Call(s, t) ==
    /\ dpc = "alive"
    /\ spc[s] = "idle"
    /\ t \notin Known
    /\ spc' = [spc EXCEPT ![s] = "push"]
    /\ stask' = [stask EXCEPT ![s] = t]
    /\ UNCHANGED <<queue, done, mutex, wpc, task, dpc, ran, dropped, finished>>

Push(s) ==
    /\ spc[s] = "push"
    /\ queue' = Append(queue, stask[s])
    /\ spc' = [spc EXCEPT ![s] = "notify"]
    /\ UNCHANGED <<done, mutex, wpc, task, stask, dpc, ran, dropped, finished>>

Notify(s) ==
    /\ spc[s] = "notify"
    /\ IF \E w \in Workers: wpc[w] = "wait"
       THEN \E w \in Workers:
            /\ wpc[w] = "wait"
            /\ wpc' = [wpc EXCEPT ![w] = "relock"]
       ELSE wpc' = wpc
    /\ spc' = [spc EXCEPT ![s] = "idle"]
    /\ stask' = [stask EXCEPT ![s] = NoTask]
    /\ UNCHANGED <<queue, done, mutex, task, dpc, ran, dropped, finished>>

\* while(!_done)
Check(w) ==
    /\ wpc[w] = "check"
    /\ wpc' = [wpc EXCEPT ![w] = IF done THEN "exit" ELSE "pop"]
    /\ UNCHANGED <<queue, done, mutex, task, spc, stask, dpc, ran, dropped,
        finished>>

\* _work_queue.try_pop(task)
Pop(w) ==
    /\ wpc[w] = "pop"
    /\ IF queue = <<>>
       THEN /\ wpc' = [wpc EXCEPT ![w] = "lock"]
            /\ UNCHANGED <<queue, task>>
       ELSE /\ wpc' = [wpc EXCEPT ![w] = "start"]
            /\ task' = [task EXCEPT ![w] = Head(queue)]
            /\ queue' = Tail(queue)
    /\ UNCHANGED <<done, mutex, spc, stask, dpc, ran, dropped, finished>>

Start(w) ==
    /\ wpc[w] = "start"
    /\ wpc' = [wpc EXCEPT ![w] = "run"]
    /\ ran' = [ran EXCEPT ![task[w]] = @ + 1]
    /\ UNCHANGED <<queue, done, mutex, task, spc, stask, dpc, dropped, finished>>

Finish(w) ==
    /\ wpc[w] = "run"
    /\ wpc' = [wpc EXCEPT ![w] = "check"]
    /\ finished' = finished \cup {task[w]}
    /\ task' = [task EXCEPT ![w] = NoTask]
    /\ UNCHANGED <<queue, done, mutex, spc, stask, dpc, ran, dropped>>

Lock(w) ==
    /\ wpc[w] = "lock"
    /\ mutex = None
    /\ mutex' = w
    /\ wpc' = [wpc EXCEPT ![w] = "check2"]
    /\ UNCHANGED <<queue, done, task, spc, stask, dpc, ran, dropped, finished>>

\* if(!_done) wait_for(lock, 100ms): waiting gives up the mutex in one step
Check2(w) ==
    /\ wpc[w] = "check2"
    /\ IF done
       THEN /\ wpc' = [wpc EXCEPT ![w] = "check"]
            /\ mutex' = None
       ELSE /\ wpc' = [wpc EXCEPT ![w] = "towait"]
            /\ UNCHANGED mutex
    /\ UNCHANGED <<queue, done, task, spc, stask, dpc, ran, dropped, finished>>

ToWait(w) ==
    /\ wpc[w] = "towait"
    /\ wpc' = [wpc EXCEPT ![w] = "wait"]
    /\ mutex' = None
    /\ UNCHANGED <<queue, done, task, spc, stask, dpc, ran, dropped, finished>>

Timeout(w) ==
    /\ Timeouts
    /\ wpc[w] = "wait"
    /\ wpc' = [wpc EXCEPT ![w] = "relock"]
    /\ UNCHANGED <<queue, done, mutex, task, spc, stask, dpc, ran, dropped,
        finished>>

SpuriousWake(w) ==
    /\ Spurious
    /\ wpc[w] = "wait"
    /\ wpc' = [wpc EXCEPT ![w] = "relock"]
    /\ UNCHANGED <<queue, done, mutex, task, spc, stask, dpc, ran, dropped,
        finished>>

\* Take the mutex again and leave the block, which releases it.
Relock(w) ==
    /\ wpc[w] = "relock"
    /\ mutex = None
    /\ wpc' = [wpc EXCEPT ![w] = "check"]
    /\ UNCHANGED <<queue, done, mutex, task, spc, stask, dpc, ran, dropped,
        finished>>

\* Destruction: the user sees to it that no submission is going on.
SetDone ==
    /\ dpc = "alive"
    /\ \A s \in Submitters: spc[s] = "idle"
    /\ done' = TRUE
    /\ dpc' = "notify"
    /\ UNCHANGED <<queue, mutex, wpc, task, spc, stask, ran, dropped, finished>>

NotifyAll ==
    /\ dpc = "notify"
    /\ wpc' = [w \in Workers |-> IF wpc[w] = "wait" THEN "relock" ELSE wpc[w]]
    /\ dpc' = "join"
    /\ UNCHANGED <<queue, done, mutex, task, spc, stask, ran, dropped, finished>>

JoinAll ==
    /\ dpc = "join"
    /\ \A w \in Workers: wpc[w] = "exit"
    /\ dropped' = {queue[i]: i \in 1..Len(queue)}
    /\ queue' = <<>>
    /\ dpc' = "gone"
    /\ UNCHANGED <<done, mutex, wpc, task, spc, stask, ran, finished>>

Terminated == dpc = "gone" /\ UNCHANGED vars

WorkerStep(w) == Check(w) \/ Pop(w) \/ Start(w) \/ Finish(w) \/ Lock(w) \/
    Check2(w) \/ ToWait(w) \/ Relock(w)

Next ==
    \/ \E s \in Submitters: (\E t \in Tasks: Call(s, t)) \/ Push(s) \/ Notify(s)
    \/ \E w \in Workers: WorkerStep(w) \/ Timeout(w) \/ SpuriousWake(w)
    \/ SetDone \/ NotifyAll \/ JoinAll
    \/ Terminated

\* Threads that can go on do; timeouts expire. Nobody has to call submit or
\* the destructor, and spurious wake-ups need not happen.
Fair ==
    /\ \A s \in Submitters: WF_vars(Push(s)) /\ WF_vars(Notify(s))
    /\ \A w \in Workers: SF_vars(WorkerStep(w)) /\ WF_vars(Timeout(w))
    /\ WF_vars(NotifyAll) /\ WF_vars(JoinAll)

Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
MutexOK ==
    \A w \in Workers: wpc[w] \in {"check2", "towait"} <=> mutex = w

RunsOnce == \A t \in Tasks: ran[t] <= 1

Submitted(t) == t \in Known

\* Refinement of the executor as its users see it.
abs_st == [t \in Tasks |->
    IF t \in dropped THEN "dropped"
    ELSE IF t \in finished THEN "done"
    ELSE IF \E w \in Workers: task[w] = t
         THEN IF \E w \in Workers: task[w] = t /\ wpc[w] = "run" THEN "running"
              ELSE "popped"
    ELSE IF \E i \in 1..Len(queue): queue[i] = t THEN "queued"
    ELSE IF \E s \in Submitters: stask[s] = t THEN "calling"
    ELSE "new"]

abs_subm == [t \in Tasks |->
    t \in Known /\ ~(\E s \in Submitters: stask[s] = t)]

abs_phase == IF dpc = "alive" THEN "open"
    ELSE IF dpc = "gone" THEN "closed" ELSE "closing"

E == INSTANCE Executor WITH st <- abs_st, subm <- abs_subm, q <- queue,
    by <- task, runs <- ran, phase <- abs_phase

Refines == E!ESafeSpec
ExecutorInvariants == E!ExactlyOnce /\ E!OneOwner /\ E!ClosedIsFinal /\
    E!OnlyClosingDrops

\* What was accepted is started (unless the pool goes away first), and
\* destruction ends.
EventuallyRun ==
    \A t \in Tasks: (\E i \in 1..Len(queue): queue[i] = t) ~>
        (t \in finished \cup dropped)
EventuallyGone == (dpc = "notify") ~> (dpc = "gone")

\* A worker that is asleep when a submission notifies is woken by it.
WakesSleeper ==
    [][\A s \in Submitters:
        (spc[s] = "notify" /\ spc'[s] = "idle" /\
            (\E w \in Workers: wpc[w] = "wait"))
        => Cardinality({w \in Workers: wpc'[w] = "wait"}) <
           Cardinality({w \in Workers: wpc[w] = "wait"})]_vars
=============================================================================
