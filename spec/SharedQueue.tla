---------------------------- MODULE SharedQueue ----------------------------
(***************************************************************************)
(* A queue shared by threads, as its users see it: every operation takes   *)
(* effect at one moment between its call and its return. A push appends, a *)
(* pop takes the oldest element or reports that there is none, empty tells *)
(* whether there is none.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Threads, Values

Nothing == 0

VARIABLES
    content,   \* elements, oldest first
    op         \* thread -> what it is doing

qvars == <<content, op>>

Idle == [name |-> "idle", x |-> Nothing, ok |-> 0, done |-> FALSE]

QInit ==
    /\ content = <<>>
    /\ op = [t \in Threads |-> Idle]

QCall(t, name, x) ==
    /\ op[t] = Idle
    /\ op' = [op EXCEPT ![t] = [name |-> name, x |-> x, ok |-> 0, done |-> FALSE]]
    /\ UNCHANGED content

QEffect(t) ==
    /\ op[t].name # "idle"
    /\ ~op[t].done
    /\ CASE op[t].name = "push" ->
            /\ content' = Append(content, op[t].x)
            /\ op' = [op EXCEPT ![t].done = TRUE]
         [] op[t].name = "pop" /\ content # <<>> ->
            /\ content' = Tail(content)
            /\ op' = [op EXCEPT ![t].done = TRUE, ![t].x = Head(content),
                                ![t].ok = 1]
         [] op[t].name = "pop" /\ content = <<>> ->
            /\ op' = [op EXCEPT ![t].done = TRUE]
            /\ UNCHANGED content
         [] op[t].name = "empty" ->
            /\ op' = [op EXCEPT ![t].done = TRUE,
                                ![t].ok = IF content = <<>> THEN 1 ELSE 0]
            /\ UNCHANGED content

QReturn(t, x, ok) ==
    /\ op[t].done
    /\ op[t].x = x
    /\ op[t].ok = ok
    /\ op' = [op EXCEPT ![t] = Idle]
    /\ UNCHANGED content

QNext == \E t \in Threads:
    \/ \E x \in Values: QCall(t, "push", x)
    \/ QCall(t, "pop", Nothing) \/ QCall(t, "empty", Nothing)
    \/ QEffect(t)
    \/ QReturn(t, op[t].x, op[t].ok)

QSpec == QInit /\ [][QNext]_qvars
=============================================================================
