-------------------------- MODULE SharedQueueTrace --------------------------
(* Recorded executions of ThreadSafeQueue against SharedQueue: is there an  *)
(* order of effects that explains all calls and returns?                    *)
EXTENDS SharedQueue, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

VARIABLES tr, l
T == Traces[tr]
Ev == T.events[l]

TInit == QInit /\ tr \in 1..N /\ l = 1

Step == l <= Len(T.events) /\ l' = l + 1 /\ UNCHANGED tr

TNext ==
    \/ /\ Step /\ Ev.e = "C" /\ QCall(Ev.w, Ev.r, Ev.t)
    \/ /\ Step /\ Ev.e = "R" /\ op[Ev.w].name = Ev.r
       /\ QReturn(Ev.w, Ev.t, Ev.v)
    \/ /\ Step /\ Ev.e = "END" /\ content = <<>> /\ UNCHANGED qvars
    \/ /\ l <= Len(T.events)
       /\ \E t \in Threads: QEffect(t)
       /\ UNCHANGED <<tr, l>>

TSpec == TInit /\ [][TNext]_<<qvars, tr, l>>

ASSUME \A i \in 1..N: TLCSet(i, 0)
Track == TLCSet(tr, IF TLCGet(tr) < l - 1 THEN l - 1 ELSE TLCGet(tr))
Report == PrintT(<<"REACHED", [i \in 1..N |-> TLCGet(i)]>>)
=============================================================================
