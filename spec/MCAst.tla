------------------------------- MODULE MCAst ---------------------------------
(* Laws of what is derived from programs, for all small programs.          *)
EXTENDS Ast

LOCAL INSTANCE SequencesExt

CONSTANTS MaxStatements, Rich

VARIABLE program

Node(k, n, a, b) ==
    [k |-> k, id |-> 0, p |-> <<1, 2>>, q |-> <<3, 4>>, n |-> n, v |-> "1",
     a |-> a, b |-> b, s |-> <<>>]
Name(n) == Node("name", n, <<>>, <<>>)
Simple == {Name("a"), Name("b"), Node("num", "int32", <<>>, <<>>)}
Exprs == Simple \union {Node("call", "f", <<x>>, <<>>): x \in Simple}
    \union {Node("op", "add", <<Name("a"), x>>, <<>>): x \in Simple}
    \union {Node("op", "UnarySub", <<x>>, <<>>): x \in Simple}
    \union (IF Rich THEN {Node("sub", "", <<x, Name("a")>>, <<>>): x \in Simple}
                         \union {Node("attr", "a", <<x>>, <<>>): x \in Simple}
            ELSE {})
Assigns == {Node("assign", "", <<Name(n), x>>, <<>>):
                n \in {"a", "b"}, x \in Exprs}
Basic == Exprs \union Assigns
Few == {Name("a"), Node("assign", "", <<Name("a"), Name("b")>>, <<>>),
        Node("call", "f", <<Name("b")>>, <<>>)}
Ifs == {Node("if", "", <<Name("b")>>, <<<<x>>, y>>):
            x \in Few, y \in {<<z>>: z \in Few} \union {<<>>}}
Statements == Basic \union Ifs

(* Ids, in the order of the text. *)
RECURSIVE Numbered(_, _)
NumberedAll(xs, next) ==
    FoldLeft(LAMBDA r, x: LET y == Numbered(x, r[2])
                          IN <<Append(r[1], y[1]), y[2]>>, <<<<>>, next>>, xs)
Numbered(x, next) ==
    LET a == NumberedAll(x.a, next + 1)
        blocks == FoldLeft(
            LAMBDA r, block: LET y == NumberedAll(block, r[2] + 1)
                             IN <<Append(r[1], y[1]), y[2],
                                  Append(r[3], r[2])>>,
            <<<<>>, a[2], <<>>>>, x.b)
    IN <<[x EXCEPT !.id = next, !.a = a[1], !.b = blocks[1],
                   !.s = blocks[3]], blocks[2]>>

P == NumberedAll(program, 1)[1]
LastId == NumberedAll(program, 1)[2] - 1

Init == program = <<>>
Next == /\ Len(program) < MaxStatements
        /\ \E x \in Statements: program' = Append(program, x)

(* Two programs with the same text are the same: of a program and the one *)
(* with another last statement.                                            *)
Unambiguous ==
    program # <<>> =>
        \A x \in Statements:
            LET other == SubSeq(program, 1, Len(program) - 1) \o <<x>>
            IN ModuleText(program, 4) = ModuleText(other, 4) => program = other

(* Definitions and uses are each other's inverse. *)
Matching ==
    LET b == Bindings(P)
    IN \A i, j \in 1..Len(b.ev):
        /\ b.ev[i][1] = "use" /\ b.ev[j][1] = "define"
        => (Definitions(b, i) = <<b.ev[j][3]>>)
            <=> (\E k \in 1..Len(UsesOf(b, j)): UsesOf(b, j)[k] = b.ev[i][3])

(* A name is used in the program before anything defines it, or not at all. *)
Closed ==
    LET inputs == Inputs(Bindings(P))
        before == [k \in 1..Len(inputs) |->
            Node("assign", "", <<Name(inputs[k]), Node("num", "int32", <<>>,
                                                        <<>>)>>, <<>>)]
        whole == Bindings(NumberedAll(before \o program, 1)[1])
    IN /\ Inputs(whole) = <<>>
       /\ Len(Outputs(Bindings(P))) <= Len(Outputs(whole))
       /\ \A k, m \in 1..Len(inputs): inputs[k] = inputs[m] => k = m

(* Control starts at the module and gets back to it, whatever the branch;  *)
(* every vertex is on the way.                                             *)
Vertices == {x[1]: x \in {Edges(P)[k]: k \in 1..Len(Edges(P))}}
RECURSIVE Back(_, _, _)
Back(edges, from, steps) ==
    /\ steps > 0
    /\ LET next == Successors(edges, from)
       IN next # <<>> /\ \A k \in 1..Len(next):
            next[k] = 0 \/ Back(edges, next[k], steps - 1)
RECURSIVE Reached(_, _)
Reached(edges, seen) ==
    LET more == seen \union
            {edges[k][2]: k \in {m \in 1..Len(edges): edges[m][1] \in seen}}
    IN IF more = seen THEN seen ELSE Reached(edges, more)
RECURSIVE IdsOf(_)
IdsOfAll(xs) == UNION {IdsOf(xs[k]): k \in 1..Len(xs)}
IdsOf(x) == {x.id} \union IdsOfAll(x.a) \union
            UNION {IdsOfAll(x.b[k]): k \in 1..Len(x.b)}
Threaded ==
    LET edges == Edges(P)
    IN /\ Back(edges, 0, Len(edges) + 1)
       /\ IdsOfAll(P) \subseteq Reached(edges, {0})
       /\ \A id \in IdsOfAll(P): Len(Successors(edges, id)) \in 1..2

(* Knowing more does not make a program wrong; without errors, every       *)
(* expression has a type.                                                  *)
AnyType == [d |-> <<"Constant", "StaticField">>, v |-> <<"Int32">>]
Ops == <<[n |-> "f", parameters |-> <<AnyType>>, as |-> 1, otherwise |-> AnyType],
         [n |-> "add", parameters |-> <<AnyType, AnyType>>, as |-> 0,
          otherwise |-> AnyType]>>
A1 == <<[n |-> "a", t |-> AnyType]>>
B1 == Append(A1, [n |-> "b", t |-> AnyType])
Monotone ==
    LET less == Analysed(P, A1, Ops)
        more == Analysed(P, B1, Ops)
    IN /\ less.errors = <<>> => more.errors = <<>>
       /\ less.errors = <<>> =>
            \A k \in 1..Len(less.found): less.found[k][2] # T!TypeText(Undefined)
       /\ Len(less.found) = Len(more.found)

=============================================================================
