---------------------------- MODULE ConvolveOps ----------------------------
(* Convolution of a two-dimensional raster by a square kernel of odd width.  *)
(* A raster is a record rows, cols, v (values, row-major), n (no-data).      *)
(* Weighted values are counted in units of 1/840, so that the mean of up to  *)
(* eight values is a whole number.                                           *)
EXTENDS Kinds, FiniteSets, TLC

Max2(x, y) == IF x < y THEN y ELSE x
Min2(x, y) == IF x < y THEN x ELSE y

Unit == 840

Inside(a, r, c) == r \in 0..a.rows - 1 /\ c \in 0..a.cols - 1
At(a, r, c) == r * a.cols + c + 1
IsValid(a, r, c) == Inside(a, r, c) /\ ~a.n[At(a, r, c)]

\* The valid cells among the eight around a cell.
Around(a, r, c) ==
    {x \in {r - 1, r, r + 1} \X {c - 1, c, c + 1} :
        x # <<r, c>> /\ IsValid(a, x[1], x[2])}

RECURSIVE SumOf(_, _)
SumOf(a, cells) ==
    IF cells = {} THEN 0
    ELSE LET x == CHOOSE x \in cells : TRUE
         IN a.v[At(a, x[1], x[2])] + SumOf(a, cells \ {x})

None == <<FALSE, 0>>
Some(x) == <<TRUE, x>>

\* What a replacement by the average of the surrounding cells gives.
Average(a, r, c) ==
    LET cells == Around(a, r, c)
        k == Cardinality(cells)
    IN IF k = 0 THEN None ELSE Some((SumOf(a, cells) * Unit) \div k)

\* What the location (r, c) contributes, given the rules for locations without
\* data and outside of the raster.
Contribution(a, r, c, noDataAverage, outAverage) ==
    IF IsValid(a, r, c) THEN Some(a.v[At(a, r, c)] * Unit)
    ELSE IF Inside(a, r, c)
    THEN IF noDataAverage THEN Average(a, r, c) ELSE None
    ELSE IF outAverage THEN Average(a, r, c) ELSE None

\* kernel: a record radius, w (weights, row-major).
\* [seen, total, weight, high, low]: the number of contributions, their
\* weighted sum, the sum of their weights, and what the positive and the
\* negative ones sum to.
RECURSIVE Collect(_, _, _, _, _, _, _, _)
Collect(a, kernel, r, c, nda, ooia, i, acc) ==
    LET side == 2 * kernel.radius + 1
    IN IF i > side * side THEN acc
       ELSE LET w == kernel.w[i]
                r2 == r - kernel.radius + ((i - 1) \div side)
                c2 == c - kernel.radius + ((i - 1) % side)
                x == IF w = 0 THEN None
                     ELSE Contribution(a, r2, c2, nda, ooia)
                y == x[2] * w
            IN Collect(a, kernel, r, c, nda, ooia, i + 1,
                   IF ~x[1] THEN acc
                   ELSE [seen |-> acc.seen + 1,
                         total |-> acc.total + y,
                         weight |-> acc.weight + w,
                         high |-> acc.high + Max2(y, 0),
                         low |-> acc.low + Min2(y, 0)])
Collected(a, kernel, r, c, nda, ooia) ==
    Collect(a, kernel, r, c, nda, ooia, 1,
            [seen |-> 0, total |-> 0, weight |-> 0, high |-> 0, low |-> 0])

\* The result, rounded down, in 1/scale.
Result(x, divide, scale) ==
    (scale * x.total) \div (IF divide THEN Unit * x.weight ELSE Unit)
=============================================================================
