--------------------------- MODULE ParallelTrace ---------------------------
(* Recorded executions of algorithms in parallel: every access to memory is *)
(* ordered with the conflicting accesses before it (HappensBefore), every   *)
(* call returns, and its results are those of the call that was performed   *)
(* sequentially.                                                            *)
EXTENDS HappensBefore, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Traces)

VARIABLES tr, l
T == Traces[tr]
Ev == T.events[l]
vars == <<hbvars, tr, l>>

TInit ==
    /\ tr \in 1..N /\ l = 1
    /\ HBInit(0..(T.threads - 1), 1..T.objects, 1..T.locations)

TNext ==
    /\ l <= Len(T.events) /\ l' = l + 1 /\ UNCHANGED tr
    /\ \/ Ev.e = "A" /\ Acquire(Ev.w, Ev.t)
       \/ Ev.e = "L" /\ Release(Ev.w, Ev.t)
       \/ Ev.e = "R" /\ Read(Ev.w, Ev.t)
       \/ Ev.e = "W" /\ Write(Ev.w, Ev.t)
       \/ /\ Ev.e = "X" /\ Ev.v = T.want[Ev.w][Ev.t] /\ UNCHANGED hbvars
       \/ /\ Ev.e = "END" /\ Ev.t = Len(T.want[Ev.w]) /\ UNCHANGED hbvars

TSpec == TInit /\ [][TNext]_vars

ASSUME \A i \in 1..N: TLCSet(i, 0)
Track == TLCSet(tr, IF TLCGet(tr) < l - 1 THEN l - 1 ELSE TLCGet(tr))
Report == PrintT(<<"REACHED", [i \in 1..N |-> TLCGet(i)]>>)
\* A recording is judged step by step: its position tells states apart.
Position == <<tr, l>>
=============================================================================
