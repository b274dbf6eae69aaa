---------------------------- MODULE DrawingsTrace ----------------------------
(* What the code draws, and what it leaves of programs, judged by Drawings.   *)
EXTENDS Drawings, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

Range(s) == {s[k]: k \in DOMAIN s}
SameOnce(s, t) == Len(s) = Len(t) /\ Range(s) = Range(t)
    /\ Cardinality(Range(s)) = Len(s)

DrawnVertices(g) == [k \in 1..Len(g.vertices) |->
                        <<g.vertices[k].id, g.vertices[k].text>>]
Edges(g, coloured) == SelectSeq(g.edges, LAMBDA e: e.coloured = coloured)
From(edges, id) ==
    LET own == SelectSeq(edges, LAMBDA e: e.from = id)
    IN [k \in 1..Len(own) |-> own[k].to]
Into(edges, id) ==
    LET own == SelectSeq(edges, LAMBDA e: e.to = id)
    IN [k \in 1..Len(own) |-> own[k].from]

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

\* All edges are the ones meant: from (or to) each id those in this order.
OkEdges(edges, meant, Get(_, _)) ==
    /\ \A k \in 1..Len(meant): Get(edges, meant[k][1]) = meant[k][2]
    /\ Len(edges) = Sum([k \in 1..Len(meant) |-> Len(meant[k][2])])

OkControl(e, edges) ==
    LET meant == A!Edges(e.program)
        some == Controls(e.program)
        drawn == [k \in 1..Len(edges) |-> <<edges[k].from, edges[k].to>>]
    IN IF ~e.threaded THEN edges = <<>>
       ELSE /\ \A id \in some: From(edges, id) = A!Successors(meant, id)
            /\ Range(drawn) \subseteq Range(meant)

OkUses(e, edges) ==
    LET b == A!Bindings(e.program)
        named == SelectSeq([i \in 1..Len(b.ev) |-> i],
                           LAMBDA i: b.ev[i][1] \in {"use", "define"})
    IN IF ~e.named THEN edges = <<>>
       ELSE OkEdges(edges, [k \in 1..Len(named) |->
                        <<b.ev[named[k]][3], A!UsesOf(b, named[k])>>], From)

OkTree(e) ==
    LET vertices == ScopeVertices(e.program, 1000)
        below == ScopeBelow(e.program, 1000)
        clusters == Clusters(e.program, e.source)
        \* 1: the tree, 2: with control, 3: with uses, 4: with both.
        coloured == [k \in 1..4 |-> Edges(e.drawn[k], TRUE)]
    IN /\ Len(e.drawn) = 4 /\ e.again
       /\ \A k \in 1..4:
            LET g == e.drawn[k]
            IN /\ g.ok
               /\ SameOnce(DrawnVertices(g), vertices)
               /\ \A m \in 1..Len(g.vertices):
                    \E n \in 1..Len(e.types):
                        /\ e.types[n].id = g.vertices[m].id
                        /\ \/ e.types[n].more = g.vertices[m].more
                           \/ g.vertices[m].more = <<>>
               /\ OkEdges(Edges(g, FALSE), below, From)
               /\ [m \in 1..Len(g.clusters) |->
                        <<g.clusters[m].id, g.clusters[m].text,
                          g.clusters[m].in>>] = clusters
       /\ coloured[1] = <<>>
       /\ OkControl(e, coloured[2])
       /\ OkUses(e, coloured[3])
       /\ coloured[4] = coloured[2] \o coloured[3]

OkFlow(e) ==
    LET g == e.drawn
        bound == A!Bindings(e.program)
        b == IF e.named THEN bound ELSE Unbound(bound)
    IN /\ g.ok
       /\ SameOnce(DrawnVertices(g),
                   A!Concat([k \in 1..Len(e.program) |->
                                FlowVertices(b, e.program[k])]))
       /\ OkEdges(g.edges, A!Concat([k \in 1..Len(e.program) |->
                                        Flows(b, e.program[k])]), Into)

OkSimplify(e) ==
    [k \in 1..Len(e.left) |-> <<e.left[k].n, <<e.left[k].k, e.left[k].v>>>>]
        = Simplified(Assignments(e.program))

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "tree" -> OkTree(e)
         [] e.op = "flow" -> OkFlow(e)
         [] e.op = "simplify" -> OkSimplify(e)
         [] OTHER -> FALSE

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
