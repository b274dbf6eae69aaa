------------------------------- MODULE Scopes -------------------------------
(* Scopes hold values by name; a symbol table is a stack of scopes, in which *)
(* the innermost value for a name is the one that is found. Stacks of values *)
(* of any type. Guards: functions that are called when they are left.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == [n \in {} |-> 0]

\* Scopes.
Put(scope, name, x) ==
    [n \in DOMAIN scope \union {name} |-> IF n = name THEN x ELSE scope[n]]
Erase(scope, name) == [n \in DOMAIN scope \ {name} |-> scope[n]]

\* Tables.
Level(t) == Len(t)
Push(t) == Append(t, Empty)
Pop(t) == SubSeq(t, 1, Len(t) - 1)
Inner(t, scope) == [t EXCEPT ![Len(t)] = scope]
Clear(t) == Inner(t, Empty)
Add(t, name, x) == Inner(t, Put(t[Len(t)], name, x))
EraseInner(t, name) == Inner(t, Erase(t[Len(t)], name))

LevelsOf(t, name) == {k \in 1..Len(t): name \in DOMAIN t[k]}
Has(t, name) == LevelsOf(t, name) # {}
LevelOf(t, name) ==
    CHOOSE k \in LevelsOf(t, name): \A m \in LevelsOf(t, name): m <= k
Value(t, name) == t[LevelOf(t, name)][name]
Size(t) ==
    LET RECURSIVE Go(_)
        Go(k) == IF k = 0 THEN 0 ELSE Cardinality(DOMAIN t[k]) + Go(k - 1)
    IN Go(Len(t))

\* Guards: a slot holds the numbers of the function to call, or none.
Leave(slot) == IF slot = 0 THEN <<>> ELSE <<slot>>
=============================================================================
