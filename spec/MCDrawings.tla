------------------------------ MODULE MCDrawings ------------------------------
(* Laws of drawings, for all small programs, and of leaving out the names     *)
(* that are used once, for all small sequences of assignments.                *)
EXTENDS MCAst

CONSTANTS MaxAssignments

VARIABLE chain

D == INSTANCE Drawings

Names == <<"a", "b", "c", "d", "e", "f", "g">>

AllInit == Init /\ chain = <<>>
\* The next name gets a constant, an input, or the value of an earlier one.
Longer ==
    /\ program = <<>>
    /\ Len(chain) < MaxAssignments
    /\ \E x \in {<<"num", "5">>, <<"name", "p">>}
                \union {<<"name", chain[k][1]>>: k \in 1..Len(chain)}:
            chain' = Append(chain, <<Names[Len(chain) + 1], x[1], x[2]>>)
    /\ UNCHANGED program
\* Attributes of values are not drawn.
Drawable(x) == x.k # "attr" /\ \A k \in 1..Len(x.a): x.a[k].k # "attr"
AllNext == Longer \/ ( /\ chain = <<>>
                      /\ Next
                      /\ Drawable(program'[Len(program')])
                      /\ UNCHANGED chain)

-----------------------------------------------------------------------------
Range(s) == {s[k]: k \in DOMAIN s}
Drawn == D!ScopeVertices(P, 1000)
DrawnIds == {Drawn[k][1]: k \in 1..Len(Drawn)}
ScopesOf == {D!Clusters(P, "m")[k][1]: k \in 1..Len(D!Clusters(P, "m"))}

\* Every vertex is drawn once, and is below one other, or is a scope or where
\* one ends.
DrawnTree ==
    LET below == D!ScopeBelow(P, 1000)
        all == Concat([k \in 1..Len(below) |-> below[k][2]])
    IN /\ Cardinality(DrawnIds) = Len(Drawn)
       /\ Cardinality(Range(all)) = Len(all)
       /\ Range(all) = {id \in DrawnIds: id > 0} \ ScopesOf
       /\ {below[k][1]: k \in 1..Len(below)} \subseteq DrawnIds

\* Clusters are within each other.
Nested ==
    LET c == D!Clusters(P, "m")
    IN /\ Cardinality(ScopesOf) = Len(c)
       /\ \A k \in 1..Len(c): c[k][3] < k /\ (c[k][3] = 0 <=> k = 1)

\* What is controlled is drawn.
ControlDrawn == D!Controls(P) \subseteq DrawnIds

\* Values flow between what is drawn; each use of a name is drawn, or has its
\* values from a definition that is.
FlowDrawn ==
    \A b \in {Bindings(P), D!Unbound(Bindings(P))}:
        LET vertices == Concat([k \in 1..Len(P) |-> D!FlowVertices(b, P[k])])
            flows == Concat([k \in 1..Len(P) |-> D!Flows(b, P[k])])
            drawn == {vertices[k][1]: k \in 1..Len(vertices)}
        IN /\ Cardinality(drawn) = Len(vertices)
           /\ drawn \subseteq DrawnIds
           /\ \A k \in 1..Len(flows):
                {flows[k][1]} \union Range(flows[k][2]) \subseteq drawn

-----------------------------------------------------------------------------
\* What is left keeps its value, is used by none or several, and cannot be
\* simplified any further; inputs and constants are only ever written out.
Left == D!Simplified(chain)
Again == [k \in 1..Len(Left) |-> <<Left[k][1], Left[k][2][1], Left[k][2][2]>>]
KeepsValues ==
    /\ \A k \in 1..Len(Again):
        D!Value(Again, Again[k][2], Again[k][3]) = D!Value(chain, "name", Again[k][1])
    /\ D!Assigned(Again) =
        {n \in D!Assigned(chain): Cardinality(D!UsesOfName(chain, n)) # 1}
    /\ \A n \in D!Assigned(Again):
        Cardinality(D!UsesOfName(Again, n)) = Cardinality(D!UsesOfName(chain, n))
SimplifiedOnce == D!Simplified(Again) = Left
NothingUsedOnce ==
    \A n \in D!Assigned(Again): Cardinality(D!UsesOfName(Again, n)) # 1
=============================================================================
