--------------------------- MODULE ExecutorTrace ---------------------------
(***************************************************************************)
(* Recorded executions of fern's thread pool against Executor.tla. Every   *)
(* line of the file is one execution: its observable events in order, with *)
(* virtual time. Enqueue, Pop, Drop and Close are not observable: TLC      *)
(* infers them. On top of the executor's own actions this module checks    *)
(*  - the outcome a future delivers (value or exception, and whose),       *)
(*  - that every future delivers,                                          *)
(*  - latencies: time only passes while nobody can go on. While a task is  *)
(*    waiting and a worker is idle, at most Slack ms pass; none at all if  *)
(*    the workers were known to be asleep when the task was submitted.     *)
(***************************************************************************)
EXTENDS Executor, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

Slack == 1000

VARIABLES tr, l, clock, lag, limit, got, gone

tvars == <<evars, tr, l, clock, lag, limit, got, gone>>

T == Traces[tr]
Ev == T.events[l]
Crew == 1..T.workers

TInit ==
    /\ EInit
    /\ tr \in 1..N
    /\ l = 1
    /\ clock = 0
    /\ lag = 0
    /\ limit = Slack
    /\ got = {}
    /\ gone = FALSE

\* Something should be going on without anybody's help.
Pending ==
    \/ \E t \in Tasks: st[t] = "popped"
    \/ q # <<>> /\ phase = "open" /\ \E w \in Crew: by[w] = NoTask
    \/ phase # "open" /\ ~gone /\ \A w \in Crew: by[w] = NoTask

Elapsed == Ev.now - clock

Is(e) ==
    /\ l <= Len(T.events)
    /\ Ev.e = e
    /\ l' = l + 1
    /\ Ev.now >= clock
    /\ clock' = Ev.now
    /\ lag' = IF Pending THEN lag + Elapsed ELSE 0
    /\ lag' <= limit
    /\ gone' = (gone \/ e = "CR")
    /\ UNCHANGED tr

Quiet == \A t \in Tasks: st[t] \in {"new", "done"}

TNext ==
    \/ /\ Is("N") /\ Ev.v = T.workers
       /\ UNCHANGED <<evars, limit, got>>
    \/ /\ Is("SC") /\ SubmitCall(Ev.t)
       /\ UNCHANGED <<limit, got>>
    \/ /\ Is("SR") /\ SubmitRet(Ev.t)
       /\ UNCHANGED <<limit, got>>
    \/ /\ Is("S") /\ Ev.w \in Crew /\ Start(Ev.w, Ev.t)
       /\ UNCHANGED <<limit, got>>
    \/ /\ Is("E") /\ Ev.w \in Crew /\ End(Ev.w, Ev.t)
       /\ UNCHANGED <<limit, got>>
    \/ /\ Is("G") /\ Ev.t \notin got /\ Ev.v = Ev.t
       /\ Ev.r \in {"val", "exc", "broken"}
       /\ Get(Ev.t, Ev.r = "broken")
       /\ Ev.r # "broken" => Ev.r = T.kinds[Ev.t]
       /\ got' = got \cup {Ev.t}
       /\ UNCHANGED limit
    \/ /\ Is("Z")
       /\ limit' = IF T.wake /\ Quiet /\ Ev.v = T.workers THEN 0 ELSE Slack
       /\ UNCHANGED <<evars, got>>
    \/ /\ Is("CC") /\ CloseCall
       /\ limit' = IF T.wake /\ Quiet /\ Ev.v = T.workers THEN 0 ELSE Slack
       /\ UNCHANGED got
    \/ /\ Is("OPEN") /\ UNCHANGED <<evars, limit, got>>
    \/ /\ Is("CR") /\ Ev.v = 0 /\ CloseRet
       /\ limit' = Slack
       /\ UNCHANGED got
    \/ /\ Is("Q") /\ phase = "closed" /\ UNCHANGED <<evars, limit, got>>
    \/ /\ Is("END")
       /\ got = {t \in 1..T.tasks: st[t] # "new"}
       /\ \A t \in got: st[t] \in {"done", "dropped"}
       /\ UNCHANGED <<evars, limit, got>>
    \/ /\ l <= Len(T.events)
       /\ \/ \E t \in Tasks: Enqueue(t)
          \/ \E w \in Crew: Pop(w)
          \/ Drop \/ Close
       /\ UNCHANGED <<tr, l, clock, lag, limit, got, gone>>

TSpec == TInit /\ [][TNext]_tvars

\* How far each execution was matched.
ASSUME \A i \in 1..N: TLCSet(i, 0)
Track == TLCSet(tr, IF TLCGet(tr) < l - 1 THEN l - 1 ELSE TLCGet(tr))
Report == PrintT(<<"REACHED", [i \in 1..N |-> TLCGet(i)]>>)

\* The executor's invariants hold in every state of every matched execution.
Invariants == ExactlyOnce /\ OneOwner /\ ClosedIsFinal /\ OnlyClosingDrops
=============================================================================
