----------------------------- MODULE Containers -----------------------------
(* What containers are: values for the cells of a rectangular block, in row  *)
(* major order, marks for the masked ones, and a transformation for rasters. *)
(* A container has no share in another one.                                  *)
EXTENDS Integers, Sequences

Product(s) ==
    LET RECURSIVE Go(_)
        Go(k) == IF k = 0 THEN 1 ELSE s[k] * Go(k - 1)
    IN Go(Len(s))

Cells(c) == Product(c.shape)

All(n, x) == [i \in 1..n |-> x]

\* A container of the same kind: its shape and transformation, no marks.
Clone(c, x) ==
    [c EXCEPT !.v = All(Cells(c), x),
              !.n = IF c.masked THEN All(Cells(c), FALSE) ELSE <<>>]

Write(c, i, x) == [c EXCEPT !.v[i] = x]
Mark(c, i, m) == [c EXCEPT !.n[i] = m]
Fill(c, x) == [c EXCEPT !.v = All(Cells(c), x)]
MaskAll(c) == [c EXCEPT !.n = All(Cells(c), TRUE)]

\* Marks are added to those that are there.
SetMask(c, x) == [c EXCEPT !.n = [i \in 1..Cells(c) |-> @[i] \/ c.v[i] = x]]
MaskFrom(c, list, x) ==
    [c EXCEPT !.n = [i \in 1..Cells(c) |-> @[i] \/ list[i] = x]]

MaskTo(c) == [i \in 1..Cells(c) |-> IF c.n[i] THEN 0 ELSE 255]
HasMasked(c) == \E i \in 1..Cells(c): c.n[i]

WellFormed(c) ==
    /\ Len(c.v) = Cells(c)
    /\ Len(c.n) = IF c.masked THEN Cells(c) ELSE 0

------------------------------------------------------------------------------
\* Masked scalars.
Scalar(v, m) == [v |-> v, m |-> m]
=============================================================================
