---------------------------- MODULE MCContainers ----------------------------
(* All programs over two containers of a few cells: what they keep to.       *)
EXTENDS Containers

CONSTANTS Values, Shapes

SmallShapes == {<<0, 2>>, <<1, 2>>, <<3, 1>>}
BigShapes == {<<0, 2>>, <<2, 2>>, <<1, 3>>}

VARIABLES slots, last
vars == <<slots, last>>

Make(shape, masked, x) ==
    LET n == Product(shape)
    IN [masked |-> masked, shape |-> shape, v |-> All(n, x),
        n |-> IF masked THEN All(n, FALSE) ELSE <<>>, t |-> <<>>]

Made == {Make(s, TRUE, x): s \in Shapes, x \in Values}

Init == slots \in [1..2 -> Made] /\ last = [op |-> "make", a |-> 1, before |-> <<>>]

Do(op, a, c) == slots' = [slots EXCEPT ![a] = c] /\
                last' = [op |-> op, a |-> a, before |-> slots]

Lists(n) == [1..n -> {0, 255}]

Next == \E a \in 1..2:
    LET c == slots[a]
    IN \/ \E x \in Values:
              \/ Do("set_mask", a, SetMask(c, x))
              \/ Do("fill", a, Fill(c, x))
              \/ \E i \in 1..Cells(c): Do("write", a, Write(c, i, x))
              \/ \E b \in 1..2: Do("clone", a, Clone(slots[b], x))
       \/ \E i \in 1..Cells(c), m \in BOOLEAN: Do("mark", a, Mark(c, i, m))
       \/ \E list \in Lists(Cells(c)), x \in {0, 255}:
              Do("mask_from", a, MaskFrom(c, list, x))
       \/ Do("mask_all", a, MaskAll(c))

View == slots
Spec == Init /\ [][Next]_vars

Good == \A k \in 1..2: WellFormed(slots[k])

\* A mask that is written and read again is the same mask.
RoundTrip == \A k \in 1..2:
    LET c == slots[k]
    IN /\ MaskFrom(Clone(c, 0), MaskTo(c), 0).n = c.n
       /\ HasMasked(c) = (\E i \in 1..Cells(c): MaskTo(c)[i] = 0)
       /\ HasMasked(MaskAll(c)) = (Cells(c) > 0)
       /\ \A x \in Values: SetMask(SetMask(c, x), x) = SetMask(c, x)

\* Marks stay, unless they are removed explicitly; values stay too.
Keeps == [][
    LET a == last'.a
    IN /\ slots'[3 - a] = slots[3 - a]
       /\ last'.op \in {"set_mask", "mask_from", "mask_all", "write", "fill"} =>
              \A i \in 1..Cells(slots[a]): slots[a].n[i] => slots'[a].n[i]
       /\ last'.op \in {"set_mask", "mask_from", "mask_all", "mark"} =>
              slots'[a].v = slots[a].v]_vars
=============================================================================
