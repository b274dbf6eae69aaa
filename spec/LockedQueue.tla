---------------------------- MODULE LockedQueue ----------------------------
(***************************************************************************)
(* fern/core/thread_safe_queue.h: a std::queue and a mutex. The std::queue *)
(* is not atomic: an operation reads its size, then changes it in further  *)
(* steps. Refines SharedQueue if Locking; without the mutex it does not.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Values, MaxOps, Locking

Nothing == 0
VARIABLES store, mutex, pc, cur, nr, used, linearized
vars == <<store, mutex, pc, cur, nr, used, linearized>>

None == "none"
Idle == [name |-> "idle", x |-> Nothing, ok |-> 0, done |-> FALSE]

Init ==
    /\ store = <<>> /\ mutex = None
    /\ pc = [t \in Threads |-> "idle"]
    /\ cur = [t \in Threads |-> Idle]
    /\ nr = 0 /\ used = {}
    /\ linearized = <<>>

Call(t, name, x) ==
    /\ pc[t] = "idle" /\ nr < MaxOps
    /\ pc' = [pc EXCEPT ![t] = IF Locking THEN "lock" ELSE "in"]
    /\ cur' = [cur EXCEPT ![t] = [Idle EXCEPT !.name = name, !.x = x]]
    /\ nr' = nr + 1
    /\ used' = used \cup {x}
    /\ UNCHANGED <<store, mutex, linearized>>

Lock(t) ==
    /\ pc[t] = "lock" /\ mutex = None
    /\ mutex' = t /\ pc' = [pc EXCEPT ![t] = "in"]
    /\ UNCHANGED <<store, cur, nr, used, linearized>>

\* Inside: a push appends; empty looks; a pop looks, reads and removes in
\* separate steps.
In(t) ==
    /\ pc[t] = "in"
    /\ CASE cur[t].name = "push" ->
            /\ store' = Append(store, cur[t].x)
            /\ cur' = [cur EXCEPT ![t].done = TRUE]
            /\ pc' = [pc EXCEPT ![t] = "out"]
         [] cur[t].name = "empty" ->
            /\ cur' = [cur EXCEPT ![t].done = TRUE,
                              ![t].ok = IF store = <<>> THEN 1 ELSE 0]
            /\ pc' = [pc EXCEPT ![t] = "out"]
            /\ UNCHANGED store
         [] cur[t].name = "pop" /\ store = <<>> ->
            /\ cur' = [cur EXCEPT ![t].done = TRUE]
            /\ pc' = [pc EXCEPT ![t] = "out"]
            /\ UNCHANGED store
         [] cur[t].name = "pop" /\ store # <<>> ->
            /\ pc' = [pc EXCEPT ![t] = "front"]
            /\ UNCHANGED <<store, cur>>
    /\ UNCHANGED <<mutex, nr, used, linearized>>

Front(t) ==
    /\ pc[t] = "front"
    /\ cur' = [cur EXCEPT ![t].x = IF store = <<>> THEN Nothing
                                   ELSE Head(store)]
    /\ pc' = [pc EXCEPT ![t] = "remove"]
    /\ UNCHANGED <<store, mutex, nr, used, linearized>>

Remove(t) ==
    /\ pc[t] = "remove"
    /\ store' = IF store = <<>> THEN <<>> ELSE Tail(store)
    /\ cur' = [cur EXCEPT ![t].ok = 1, ![t].done = TRUE]
    /\ pc' = [pc EXCEPT ![t] = "out"]
    /\ UNCHANGED <<mutex, nr, used, linearized>>

Out(t) ==
    /\ pc[t] = "out"
    /\ mutex' = IF Locking THEN None ELSE mutex
    /\ pc' = [pc EXCEPT ![t] = "ret"]
    /\ UNCHANGED <<store, cur, nr, used, linearized>>

Ret(t) ==
    /\ pc[t] = "ret"
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ cur' = [cur EXCEPT ![t] = Idle]
    /\ linearized' = IF cur[t].name = "pop" /\ cur[t].ok = 1
                     THEN Append(linearized, cur[t].x) ELSE linearized
    /\ UNCHANGED <<store, mutex, nr, used>>

Next == \E t \in Threads:
    \/ \E x \in Values \ used: Call(t, "push", x)
    \/ Call(t, "pop", Nothing) \/ Call(t, "empty", Nothing)
    \/ Lock(t) \/ In(t) \/ Front(t) \/ Remove(t) \/ Out(t) \/ Ret(t)

Spec == Init /\ [][Next]_vars /\ WF_vars(\E t \in Threads: Lock(t) \/ In(t) \/
    Front(t) \/ Remove(t) \/ Out(t) \/ Ret(t))

\* Until a pop has removed the element nobody else can tell it is at it.
abs_op == [t \in Threads |->
    IF cur[t].done THEN cur[t]
    ELSE IF cur[t].name = "pop" THEN [cur[t] EXCEPT !.x = Nothing]
    ELSE cur[t]]

Q == INSTANCE SharedQueue WITH content <- store, op <- abs_op
Refines == Q!QSpec

\* Nothing is handed out twice.
Once == \A i, j \in 1..Len(linearized): i # j => linearized[i] # linearized[j]
MutualExclusion == Locking =>
    Cardinality({t \in Threads: pc[t] \in {"in", "front", "remove", "out"}}) <= 1
Returns == \A t \in Threads: (pc[t] # "idle") ~> (pc[t] = "idle")
=============================================================================
