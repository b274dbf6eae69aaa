------------------------------- MODULE MCTypes -------------------------------
(* Laws of types: all combinations of a few types of values.                 *)
EXTENDS Types

CONSTANTS Some      \* Names of value types.

Sets == (SUBSET Some) \ {{}}
Datas == {{"Constant"}, {"StaticField"}, {"Constant", "StaticField"}}
Known == [d: Datas, v: Sets]
Anything == Known \cup {UnknownType}
All == [d |-> Range(DataNames), v |-> Some]

VARIABLES p, a, b, c

Init == /\ p \in {t \in Known: t.d = Range(DataNames)}
        /\ a \in Anything /\ b \in Anything /\ c \in Anything
Next == UNCHANGED <<p, a, b, c>>

\* Satisfaction is a partial order on known types.
Order == /\ Satisfied(a, b) /\ Satisfied(b, c) => Satisfied(a, c)
         /\ Satisfied(a, b) /\ Satisfied(b, a) => a = b
         /\ TypeDefined(a) => Satisfied(a, a)
         /\ Satisfied(a, b) => TypeDefined(a) /\ TypeDefined(b)

\* A collection is satisfied as soon as one of its types is.
Collections == /\ Satisfied(a, c) => TypesSatisfied(<<a, b>>, <<c>>)
               /\ TypesSatisfied(<<a, b>>, <<c>>) <=>
                      TypesSatisfied(<<b, a>>, <<c>>)
               /\ FirstSatisfying(<<a>>, <<b, c>>) < 2 <=>
                      TypesSatisfied(<<a>>, <<b, c>>)

R(x, y) == ResultType(<<p, p>>, All, <<x, y>>)

\* The type of the result is known, and one that the parameters have, ...
Sound == /\ TypeDefined(R(a, b))
         /\ Satisfied(p, R(a, b))
\* ... it does not depend on the order of the arguments or on repeating one ...
Symmetric == R(a, b) = R(b, a)
\* ... is settled when those of the arguments are, ...
Settled == (TypeFixed(a) /\ TypeFixed(b) /\ Satisfied(p, a) /\ Satisfied(p, b))
               => TypeFixed(R(a, b))
\* ... and combining goes in any order.
Associative ==
    (TypeFixed(a) /\ TypeFixed(b) /\ TypeFixed(c) /\
     Satisfied(p, a) /\ Satisfied(p, b) /\ Satisfied(p, c))
        => R(R(a, b), c) = R(a, R(b, c))
=============================================================================
