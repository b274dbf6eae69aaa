------------------------------ MODULE Drawings -------------------------------
(* Drawings of programs (nodes of Ast), and programs without the names that   *)
(* are used once.                                                             *)
EXTENDS Integers, Sequences, FiniteSets

A == INSTANCE Ast

-----------------------------------------------------------------------------
\* The vertices of the drawing of a tree: <<id, text>>.
Text(x) ==
    CASE x.k = "name" -> x.n
      [] x.k = "num" -> x.v
      [] x.k = "str" -> "\"" \o x.v \o "\""
      [] x.k = "sub" -> "[]"
      [] x.k = "call" -> x.n
      [] x.k = "op" -> A!Symbol(x)
      [] x.k = "assign" -> "="
      [] x.k = "if" -> "If"
      [] x.k = "while" -> "While"
      [] x.k = "ret" -> "return"
      [] x.k = "def" -> x.n

\* The parameters of a function are not drawn.
Parts(x) == IF x.k = "def" THEN <<>> ELSE x.a

RECURSIVE Vertices(_)
RECURSIVE ScopeVertices(_, _)
Vertices(x) ==
    <<<<x.id, Text(x)>>>>
    \o A!Concat([k \in 1..Len(Parts(x)) |-> Vertices(Parts(x)[k])])
    \o A!Concat([k \in 1..Len(x.b) |-> ScopeVertices(x.b[k], x.s[k])])
ScopeVertices(block, scope) ==
    <<<<scope, "scope">>, <<-scope, "sentinel">>>>
    \o A!Concat([k \in 1..Len(block) |-> Vertices(block[k])])

\* The vertices below a vertex, from left to right: <<id, ids>>.
Ids(xs) == [k \in 1..Len(xs) |-> xs[k].id]
RECURSIVE Below(_)
RECURSIVE ScopeBelow(_, _)
Below(x) ==
    <<<<x.id, Ids(Parts(x))>>>>
    \o A!Concat([k \in 1..Len(Parts(x)) |-> Below(Parts(x)[k])])
    \o A!Concat([k \in 1..Len(x.b) |-> ScopeBelow(x.b[k], x.s[k])])
ScopeBelow(block, scope) ==
    <<<<scope, Ids(block)>>>>
    \o A!Concat([k \in 1..Len(block) |-> Below(block[k])])

\* Scopes are drawn as clusters, each within the one it is in, with the name of
\* the function or the module: <<scope, text, index of the outer one>>.
RECURSIVE ClustersOf(_, _, _, _, _)
ClustersOf(all, block, scope, text, outer) ==
    LET here == Len(all) + 1
        RECURSIVE Each(_, _)
        Each(found, k) ==
            IF k > Len(block) THEN found
            ELSE LET x == block[k]
                     name == IF x.k = "def" THEN x.n ELSE text
                     one == IF x.b = <<>> THEN found
                            ELSE ClustersOf(found, x.b[1], x.s[1], name, here)
                 IN Each(IF Len(x.b) < 2 THEN one
                         ELSE ClustersOf(one, x.b[2], x.s[2], name, here),
                         k + 1)
    IN Each(Append(all, <<scope, text, outer>>), 1)
Clusters(program, source) == ClustersOf(<<>>, program, 1000, source, 0)

\* The vertices from which edges of control are drawn.
Controls(program) ==
    LET RECURSIVE Of(_)
        Of(x) ==
            (IF x.k \in A!Expressions \cup {"assign"} THEN {x.id} ELSE {})
            \cup UNION {Of(Parts(x)[k]): k \in 1..Len(Parts(x))}
            \cup UNION {UNION {Of(x.b[k][m]): m \in 1..Len(x.b[k])}:
                        k \in 1..Len(x.b)}
    IN UNION {Of(program[k]): k \in 1..Len(program)}

-----------------------------------------------------------------------------
\* The drawing of the flow of values. Values flow from the definition of a name,
\* if it has one.
Defined(b, id) ==
    LET i == CHOOSE i \in 1..Len(b.ev):
                b.ev[i][1] \in {"use", "define"} /\ b.ev[i][3] = id
    IN A!Definitions(b, i)
Origin(b, x) ==
    IF x.k # "name" \/ Defined(b, x.id) = <<>> THEN x.id
    ELSE Defined(b, x.id)[1]

RECURSIVE FlowVertices(_, _)
FlowVertices(b, x) ==
    (IF x.k = "assign" \/ (x.k = "name" /\ Origin(b, x) # x.id) THEN <<>>
     ELSE <<<<x.id, Text(x)>>>>)
    \o A!Concat([k \in 1..Len(x.a) |-> FlowVertices(b, x.a[k])])
    \o A!Concat([k \in 1..Len(x.b) |->
                    A!Concat([m \in 1..Len(x.b[k]) |->
                                FlowVertices(b, x.b[k][m])])])

\* <<id, where its values come from>>.
RECURSIVE Flows(_, _)
Flows(b, x) ==
    (CASE x.k \in {"sub", "call", "op"} ->
            <<<<x.id, [k \in 1..Len(x.a) |-> Origin(b, x.a[k])]>>>>
       [] x.k = "assign" -> <<<<x.a[1].id, <<Origin(b, x.a[2])>>>>>>
       [] OTHER -> <<>>)
    \o A!Concat([k \in 1..Len(x.a) |-> Flows(b, x.a[k])])
    \o A!Concat([k \in 1..Len(x.b) |->
                    A!Concat([m \in 1..Len(x.b[k]) |-> Flows(b, x.b[k][m])])])

\* Without definitions all names are as they are.
Unbound(b) == [b EXCEPT !.ev = [i \in DOMAIN b.ev |->
                                    IF b.ev[i][1] = "define"
                                    THEN <<"use", b.ev[i][2], b.ev[i][3]>>
                                    ELSE b.ev[i]],
                        !.bound = [i \in DOMAIN b.bound |-> 0]]

-----------------------------------------------------------------------------
\* Programs of assignments of names and constants, each name assigned once,
\* before it is used: <<name, kind, text>>.
Assignments(program) ==
    [k \in 1..Len(program) |->
        LET x == program[k].a[2]
        IN <<program[k].a[1].n, x.k, IF x.k = "name" THEN x.n ELSE x.v>>]

UsesOfName(p, n) == {k \in 1..Len(p): p[k][2] = "name" /\ p[k][3] = n}
Assigned(p) == {p[k][1]: k \in 1..Len(p)}
Inlined(p, k) == Cardinality(UsesOfName(p, p[k][1])) = 1

\* What a name or a constant amounts to.
RECURSIVE Value(_, _, _)
Value(p, kind, text) ==
    IF kind # "name" \/ text \notin Assigned(p) THEN <<kind, text>>
    ELSE LET k == CHOOSE k \in 1..Len(p): p[k][1] = text
         IN Value(p, p[k][2], p[k][3])

\* The names that are used once are gone, what uses them has their value.
Simplified(p) ==
    LET left == SelectSeq([k \in 1..Len(p) |-> k], LAMBDA k: ~Inlined(p, k))
        RECURSIVE Of(_, _)
        Of(kind, text) ==
            IF kind # "name" \/ text \notin Assigned(p) THEN <<kind, text>>
            ELSE LET k == CHOOSE k \in 1..Len(p): p[k][1] = text
                 IN IF Inlined(p, k) THEN Of(p[k][2], p[k][3])
                    ELSE <<kind, text>>
    IN [k \in 1..Len(left) |-> <<p[left[k]][1], Of(p[left[k]][2], p[left[k]][3])>>]
=============================================================================
