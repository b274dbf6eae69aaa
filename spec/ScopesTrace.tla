----------------------------- MODULE ScopesTrace -----------------------------
(* Recorded programs over tables, scopes, stacks and guards, against Scopes. *)
EXTENDS Scopes, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* What iteration over a scope shows: each name once. (In order of the names:
\* TLC does not order strings; the harness would show a name twice.)
ScopeSeen(o, scope) ==
    /\ o.size = Cardinality(DOMAIN scope)
    /\ Len(o.items) = o.size
    /\ {<<o.items[k].k, o.items[k].x>>: k \in 1..Len(o.items)} =
           {<<n, scope[n]>>: n \in DOMAIN scope}

TableSeen(e, o, t) ==
    /\ o.level = Level(t) /\ o.size = Size(t) /\ o.empty = (Size(t) = 0)
    /\ Len(o.scopes) = Level(t)
    /\ \A k \in 1..Level(t): ScopeSeen(o.scopes[k], t[k])
    /\ \A k \in 1..Len(e.names):
           LET n == e.names[k]
           IN o.found[k] = [has |-> Has(t, n),
                            x |-> IF Has(t, n) THEN Value(t, n) ELSE 0,
                            level |-> IF Has(t, n) THEN LevelOf(t, n) ELSE 0]

TableAfter(t, ts) ==
    LET a == ts[t.a]
        b == ts[3 - t.a]
        Set(x) == [ts EXCEPT ![t.a] = x]
    IN CASE t.s = "push" -> Set(Push(a))
         [] t.s = "pop" -> Set(Pop(a))
         [] t.s = "clear" -> Set(Clear(a))
         [] t.s = "add" -> Set(Add(a, t.k, t.x))
         [] t.s = "erase" -> Set(EraseInner(a, t.k))
         [] t.s = "copy" -> Set(b)
         [] t.s = "move" -> [k \in 1..2 |-> IF k = t.a THEN b ELSE <<>>]
         [] t.s = "none" -> ts

RECURSIVE RunTables(_, _, _)
RunTables(e, i, ts) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET next == TableAfter(e.steps[i], ts)
         IN /\ \A k \in 1..2: TableSeen(e, e.steps[i].o[k], next[k])
            /\ RunTables(e, i + 1, next)

ScopeAfter(t, ts) ==
    LET a == ts[t.a]
        b == ts[3 - t.a]
        Set(x) == [ts EXCEPT ![t.a] = x]
    IN CASE t.s = "clear" -> Set(Empty)
         [] t.s = "add" -> Set(Put(a, t.k, t.x))
         [] t.s = "erase" -> Set(Erase(a, t.k))
         [] t.s = "copy" -> Set(b)
         [] t.s = "move" -> [k \in 1..2 |-> IF k = t.a THEN b ELSE Empty]
         [] t.s = "none" -> ts

RECURSIVE RunScopes(_, _, _)
RunScopes(e, i, ts) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET next == ScopeAfter(e.steps[i], ts)
         IN /\ \A k \in 1..2:
                   LET o == e.steps[i].o[k]
                   IN /\ ScopeSeen(o.scope, next[k])
                      /\ \A m \in 1..Len(e.names):
                             LET in == e.names[m] \in DOMAIN next[k]
                             IN /\ o.has[m] = in
                                /\ o.x[m] = (IF in THEN next[k][e.names[m]]
                                             ELSE 0)
            /\ RunScopes(e, i + 1, next)

\* Stacks: the last element is the top.
StackAfter(t, ss) ==
    LET Set(x) == [ss EXCEPT ![t.a] = x]
        a == ss[t.a]
        b == ss[3 - t.a]
    IN CASE t.s = "push" -> Set(Append(a, [type |-> t.type, x |-> t.x]))
         [] t.s = "pop" -> Set(SubSeq(a, 1, Len(a) - 1))
         [] t.s = "copy" -> Set(b)
         [] t.s = "move" -> [k \in 1..2 |-> IF k = t.a THEN b ELSE <<>>]
         [] t.s = "none" -> ss

StackSeen(o, s) ==
    LET n == Len(s)
    IN o = [size |-> n, empty |-> n = 0,
            type |-> IF n = 0 THEN "" ELSE s[n].type,
            x |-> IF n = 0 THEN 0 ELSE s[n].x,
            is |-> IF n = 0 THEN 0 ELSE 1,
            throws |-> IF n = 0 THEN 0 ELSE 3]

RECURSIVE RunStacks(_, _, _)
RunStacks(e, i, ss) ==
    IF i > Len(e.steps)
    THEN \A k \in 1..2: LET n == Len(ss[k])
                        IN e.rest[k].l = [j \in 1..n |-> ss[k][n + 1 - j].x]
    ELSE LET next == StackAfter(e.steps[i], ss)
         IN /\ \A k \in 1..2: StackSeen(e.steps[i].o[k], next[k])
            /\ RunStacks(e, i + 1, next)

\* Guards. slots[k]: the function that is called when slot k is left.
RECURSIVE RunGuards(_, _, _, _)
RunGuards(e, i, slots, calls) ==
    IF i > Len(e.steps) THEN TRUE
    ELSE LET t == e.steps[i]
             after ==
                 CASE t.s = "make" -> [slots EXCEPT ![t.a] = t.x]
                   [] t.s = "move" -> [slots EXCEPT ![t.a] = slots[t.b],
                                                    ![t.b] = 0]
                   [] t.s \in {"release", "leave"} -> [slots EXCEPT ![t.a] = 0]
                   [] t.s \in {"none", "block"} -> slots
             now ==
                 CASE t.s \in {"make", "move", "leave"} -> Leave(slots[t.a])
                   [] t.s = "block" -> <<52, 50>>
                   [] OTHER -> <<>>
         IN /\ t.o = calls \o now
            /\ RunGuards(e, i + 1, after, calls \o now)

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "tables" -> RunTables(e, 1, <<(<<>>), (<<>>)>>)
         [] e.op = "scopes" -> RunScopes(e, 1, <<Empty, Empty>>)
         [] e.op = "stacks" -> RunStacks(e, 1, <<(<<>>), (<<>>)>>)
         [] e.op = "guards" -> RunGuards(e, 1, <<0, 0, 0>>, <<>>)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
