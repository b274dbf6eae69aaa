--------------------------- MODULE HappensBefore ---------------------------
(* When are two accesses to memory ordered? Threads order their actions with *)
(* synchronisation objects: what a thread did before it released an object   *)
(* is seen by the thread that acquires the object afterwards. Accesses to    *)
(* one location by different threads, at least one of which writes, have to  *)
(* be ordered this way: otherwise they race.                                 *)
(*                                                                           *)
(* A clock tells for each thread up to which of its actions the owner of the *)
(* clock is ordered after.                                                   *)
EXTENDS Naturals

VARIABLES clock,     \* thread -> its clock
          released,  \* object -> the clock that is acquired with it
          wrote,     \* location -> the last write: [by, at]
          read       \* location -> thread -> time of its last read

hbvars == <<clock, released, wrote, read>>

HBInit(Threads, Objects, Locations) ==
    /\ clock = [t \in Threads |-> [u \in Threads |-> IF t = u THEN 1 ELSE 0]]
    /\ released = [o \in Objects |-> [u \in Threads |-> 0]]
    /\ wrote = [l \in Locations |->
            [by |-> CHOOSE t \in Threads: TRUE, at |-> 0]]
    /\ read = [l \in Locations |-> [u \in Threads |-> 0]]

Latest(a, b) == [u \in DOMAIN a |-> IF a[u] > b[u] THEN a[u] ELSE b[u]]
Covers(a, b) == \A u \in DOMAIN a: b[u] <= a[u]

Acquire(t, o) ==
    /\ clock' = [clock EXCEPT ![t] = Latest(@, released[o])]
    /\ UNCHANGED <<released, wrote, read>>

Release(t, o) ==
    /\ released' = [released EXCEPT ![o] = Latest(@, clock[t])]
    /\ clock' = [clock EXCEPT ![t][t] = @ + 1]
    /\ UNCHANGED <<wrote, read>>

AfterWrites(t, l) == wrote[l].at <= clock[t][wrote[l].by]
AfterReads(t, l) == Covers(clock[t], read[l])

\* What a thread may do without racing.
Read(t, l) ==
    /\ AfterWrites(t, l)
    /\ read' = [read EXCEPT ![l][t] = clock[t][t]]
    /\ UNCHANGED <<clock, released, wrote>>

Write(t, l) ==
    /\ AfterWrites(t, l) /\ AfterReads(t, l)
    /\ wrote' = [wrote EXCEPT ![l] = [by |-> t, at |-> clock[t][t]]]
    /\ UNCHANGED <<clock, released, read>>
=============================================================================
