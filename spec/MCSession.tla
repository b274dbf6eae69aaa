------------------------------ MODULE MCSession -------------------------------
(* Laws of sessions, for all histories of small programs.                  *)
EXTENDS Session

LOCAL INSTANCE SequencesExt

CONSTANTS MaxPrograms, MaxStatements, Rich

VARIABLES n, before, s, done

Node(k, name, v, a) ==
    [k |-> k, id |-> 0, p |-> <<1, 2>>, q |-> <<3, 4>>, n |-> name, v |-> v,
     a |-> a, b |-> <<>>, s |-> <<>>]
Name(name) == Node("name", name, "", <<>>)
One == Node("num", "int32", "1", <<>>)
Word == Node("str", "", "w", <<>>)
Assign(name, x) == Node("assign", "", "", <<Name(name), x>>)
Call(name, x) == Node("call", name, "", <<x>>)

Anything == [d |-> <<"Constant">>, v |-> <<"Int32", "String">>]
Numbers == [d |-> <<"Constant">>, v |-> <<"Int32">>]
Text == [d |-> <<"Constant">>, v |-> <<"String">>]
\* f makes a text of anything, g gives back a number.
Ops == <<[n |-> "f", parameters |-> <<Anything>>, as |-> 0,
          otherwise |-> Text, fails |-> FALSE],
         [n |-> "g", parameters |-> <<Numbers>>, as |-> 1,
          otherwise |-> Text, fails |-> FALSE]>>

Statements ==
    {Name("a"), Assign("a", One), Assign("a", Name("b")),
     Assign("b", Call("f", Name("a"))), Call("g", Name("a"))}
    \union (IF Rich THEN {Assign("a", Word), Assign("b", Call("g", Name("b"))),
                          Call("f", Call("g", Name("a")))}
            ELSE {})

\* Each definition and use has an id of its own.
RECURSIVE Numbered(_, _)
Numbered(x, id) ==
    [x EXCEPT !.id = id,
              !.a = [k \in 1..Len(x.a) |-> Numbered(x.a[k], 5 * id + k)]]
Programs == {[k \in 1..Len(p) |-> Numbered(p[k], k)]:
                p \in UNION {[1..m -> Statements]: m \in 0..MaxStatements}}
Source(name) == [n |-> name, t |-> IF name = "a" THEN Numbers ELSE Text,
                 v |-> IF name = "a" THEN "int32:7" ELSE "string:s"]
SourceLists == {<<>>, <<Source("a")>>, <<Source("b")>>,
                <<Source("a"), Source("b")>>}
SyncSets == {{}, {"a"}} \union (IF Rich THEN {{"a", "b"}} ELSE {})

Init == n = 0 /\ before = Start /\ s = Start /\ done = <<<<>>, <<>>, {}>>
Next ==
    /\ n < MaxPrograms
    /\ n' = n + 1
    /\ \E p \in Programs, sources \in SourceLists, syncs \in SyncSets:
        /\ before' = s
        /\ done' = <<p, sources, syncs>>
        /\ s' = Interpret(s, p, sources, syncs, Ops)

Values(t) == {<<t.vars[k][1], Get(t.vars, t.vars[k][1])>>: k \in 1..Len(t.vars)}
Accepted == s.outcome = "ok"
Count(log, text) == Cardinality({k \in 1..Len(log): log[k] = text})
Assigned(p) == {p[k].a[1].n: k \in {m \in 1..Len(p): p[m].k = "assign"}}

\* A program that isn't valid does nothing.
Rejected ==
    ~Accepted => /\ s.vars = before.vars /\ s.types = before.types
                 /\ s.stack = before.stack /\ s.log = <<>>

\* What is known has a value, of that type.
Sound ==
    \A k \in 1..Len(s.types):
        LET name == s.types[k][1]
            type == Get(s.types, name)
            value == Get(s.vars, name)
        IN /\ Knows(s.vars, name)
           /\ Len(SelectSeq(s.vars, LAMBDA x: x[1] = name)) > 0
           /\ type \in {A!Constant("Int32"), A!Constant("String")}
           /\ (type = A!Constant("Int32")) = (value \in {"int32:1", "int32:7"})

\* Sources are read at most once, and only if there is no other value.
ReadOnce ==
    \A name \in {"a", "b"}:
        /\ Count(s.log, "read " \o name) \in {0, 1}
        /\ (n > 0 /\ name \notin SourceNames(done[2])) =>
                Count(s.log, "read " \o name) = 0

\* What is written is the value that the variable has in the end.
Written ==
    (Accepted /\ n > 0) => \A name \in {"a", "b"}:
        LET writes == SelectSeq(s.log, LAMBDA t:
                        \E v \in {x[2]: x \in {y \in Values(s): y[1] = name}}:
                            t = "write " \o name \o "=" \o v)
        IN Len(writes) = (IF name \in Assigned(done[1]) /\ name \in done[3]
                          THEN 1 ELSE 0)

\* One program, or two that follow each other: only what is written and read
\* again may differ.
Split ==
    (Accepted /\ n > 0 /\ done[2] = <<>> /\ done[3] = {}) =>
        \A m \in 0..Len(done[1]):
            LET t == Interpret(before, SubSeq(done[1], 1, m), <<>>, {}, Ops)
                u == Interpret(t, SubSeq(done[1], m + 1, Len(done[1])), <<>>,
                               {}, Ops)
            IN /\ u.outcome = "ok" /\ Values(u) = Values(s)
               /\ u.stack = s.stack /\ t.log \o u.log = s.log
=============================================================================
