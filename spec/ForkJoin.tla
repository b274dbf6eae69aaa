------------------------------ MODULE ForkJoin ------------------------------
(* How an algorithm is performed in parallel: callers split their cells in   *)
(* blocks, queue a task for each block, wait for the future of each task and *)
(* then combine what the tasks left. Workers take tasks from the queue they  *)
(* share. The orders of HappensBefore make every access race-free in every   *)
(* interleaving, and the result is that of a single pass over the cells.     *)
EXTENDS HappensBefore, Sequences, FiniteSets, Integers

CONSTANTS Callers, Workers, Blocks,   \* sets of numbers; blocks are 1..n
          Waits,        \* futures are waited for
          OwnCells      \* a task has a cell of its own for its result

VARIABLES pc,       \* thread -> what it does next
          todo,     \* thread -> the blocks to submit or to wait for; a task
          queue,    \* tasks: <<caller, block>>
          cell,     \* the contents of the locations
          finished, \* tasks whose future is set
          total     \* caller -> its result

vars == <<hbvars, pc, todo, queue, cell, finished, total>>

Threads == Callers \union Workers
None == <<0, 0>>
Queue == <<"queue">>
Future(c, b) == <<"future", c, b>>
Input(c, b) == <<"input", c, b>>
Partial(c, b) == <<"partial", c, IF OwnCells THEN b ELSE 0>>
Objects == {Queue} \union {Future(c, b): c \in Callers, b \in Blocks}
Locations == {Input(c, b): c \in Callers, b \in Blocks} \union
    {Partial(c, b): c \in Callers, b \in Blocks}

Value(c, b) == c * 10 + b
Sum(S, f(_)) ==
    LET RECURSIVE Go(_)
        Go(n) == IF n = 0 THEN 0 ELSE (IF n \in S THEN f(n) ELSE 0) + Go(n - 1)
    IN Go(Cardinality(Blocks))

Init ==
    /\ HBInit(Threads, Objects, Locations)
    /\ pc = [t \in Threads |-> IF t \in Callers THEN "fill" ELSE "take"]
    /\ todo = [t \in Threads |-> IF t \in Callers THEN <<t, 1>> ELSE None]
    /\ queue = <<>> /\ finished = {}
    /\ cell = [l \in Locations |-> 0]
    /\ total = [c \in Callers |-> 0]

Last == Cardinality(Blocks)
\* The next block, and what to do when all have been seen.
Next_(c, here, after) ==
    LET b == todo[c][2]
    IN /\ pc' = [pc EXCEPT ![c] = IF b = Last THEN after ELSE here]
       /\ todo' = [todo EXCEPT ![c] = <<c, IF b = Last THEN 1 ELSE b + 1>>]

Fill(c) ==
    LET b == todo[c][2]
    IN /\ pc[c] = "fill"
       /\ Write(c, Input(c, b))
       /\ cell' = [cell EXCEPT ![Input(c, b)] = Value(c, b)]
       /\ Next_(c, "fill", "submit")
       /\ UNCHANGED <<queue, finished, total>>

Submit(c) ==
    LET b == todo[c][2]
    IN /\ pc[c] = "submit"
       /\ Release(c, Queue) /\ queue' = Append(queue, <<c, b>>)
       /\ Next_(c, "submit", IF Waits THEN "wait" ELSE "collect")
       /\ UNCHANGED <<cell, finished, total>>

Wait(c) ==
    LET b == todo[c][2]
    IN /\ pc[c] = "wait" /\ <<c, b>> \in finished
       /\ Acquire(c, Future(c, b))
       /\ Next_(c, "wait", "collect")
       /\ UNCHANGED <<queue, cell, finished, total>>

Collect(c) ==
    LET b == todo[c][2]
    IN /\ pc[c] = "collect"
       /\ Read(c, Partial(c, b))
       /\ total' = [total EXCEPT ![c] = @ + cell[Partial(c, b)]]
       /\ Next_(c, "collect", "done")
       /\ UNCHANGED <<queue, cell, finished>>

Take(w) ==
    /\ pc[w] = "take" /\ queue # <<>>
    /\ Acquire(w, Queue)
    /\ todo' = [todo EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
    /\ pc' = [pc EXCEPT ![w] = "read"]
    /\ UNCHANGED <<cell, finished, total>>

Use(w) ==
    /\ pc[w] = "read" /\ Read(w, Input(todo[w][1], todo[w][2]))
    /\ pc' = [pc EXCEPT ![w] = "write"]
    /\ UNCHANGED <<todo, queue, cell, finished, total>>

Produce(w) ==
    LET c == todo[w][1]  b == todo[w][2]
    IN /\ pc[w] = "write" /\ Write(w, Partial(c, b))
       /\ cell' = [cell EXCEPT ![Partial(c, b)] = @ + cell[Input(c, b)]]
       /\ pc' = [pc EXCEPT ![w] = "finish"]
       /\ UNCHANGED <<todo, queue, finished, total>>

Finish(w) ==
    /\ pc[w] = "finish" /\ Release(w, Future(todo[w][1], todo[w][2]))
    /\ finished' = finished \union {todo[w]}
    /\ pc' = [pc EXCEPT ![w] = "take"]
    /\ UNCHANGED <<todo, queue, cell, total>>

Next ==
    \/ \E c \in Callers: Fill(c) \/ Submit(c) \/ Wait(c) \/ Collect(c)
    \/ \E w \in Workers: Take(w) \/ Use(w) \/ Produce(w) \/ Finish(w)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* No thread is about to race.
NoRace ==
    \A t \in Threads:
        LET c == todo[t][1]  b == todo[t][2]
        IN CASE pc[t] = "read" -> AfterWrites(t, Input(c, b))
             [] pc[t] = "fill" -> AfterWrites(t, Input(c, b)) /\
                    AfterReads(t, Input(c, b))
             [] pc[t] = "write" -> AfterWrites(t, Partial(c, b)) /\
                    AfterReads(t, Partial(c, b))
             [] pc[t] = "collect" -> AfterWrites(t, Partial(c, b))
             [] OTHER -> TRUE

AsSequential ==
    \A c \in Callers: pc[c] = "done" =>
        total[c] = Sum(Blocks, LAMBDA b: Value(c, b))

AllReturn == <>(\A c \in Callers: pc[c] = "done")
=============================================================================
