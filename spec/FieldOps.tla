------------------------------ MODULE FieldOps ------------------------------
(* Operations on a field: a raster whose cells have a width and a height.    *)
EXTENDS ConvolveOps

Kernel3(w) == [radius |-> 1, w |-> w]
Around3 == Kernel3(<<2, 3, 2, 3, 0, 3, 2, 3, 2>>)
East3 == Kernel3(<<1, 0, -1, 2, 0, -2, 1, 0, -1>>)
South3 == Kernel3(<<-1, -2, -1, 0, 0, 0, 1, 2, 1>>)

\* A quotient: <<FALSE>> if there is none.
Nothing == <<FALSE, 0, 1>>
Just(n, d) == <<TRUE, n, d>>

\* Difference with the neighbours in the direction (dr, dc), per distance.
Gradient(a, r, c, dr, dc, distance) ==
    LET v(i, j) == a.v[At(a, i, j)]
        before == IsValid(a, r - dr, c - dc)
        after == IsValid(a, r + dr, c + dc)
    IN CASE before /\ after -> Just(v(r + dr, c + dc) - v(r - dr, c - dc),
                                    2 * distance)
         [] before /\ ~after -> Just(v(r, c) - v(r - dr, c - dc), distance)
         [] ~before /\ after -> Just(v(r + dr, c + dc) - v(r, c), distance)
         [] OTHER -> Just(0, 1)

Laplacian(a, r, c, area) ==
    LET x == Collected(a, Around3, r, c, FALSE, FALSE)
    IN IF x.seen = 0 THEN Nothing
       ELSE Just(x.total - x.weight * Unit * a.v[At(a, r, c)], Unit * area)

\* k / 8 of the average of the neighbours, the rest of the cell itself.
Lax(a, r, c, k) ==
    LET x == Collected(a, Around3, r, c, FALSE, FALSE)
    IN IF x.seen = 0 THEN Nothing
       ELSE Just((8 - k) * a.v[At(a, r, c)] * x.weight + k * (x.total \div Unit),
                 8 * x.weight)

\* Slope, per direction: what the kernel gives divided by 8 cells.
SlopeIn(a, kernel, r, c, distance) ==
    LET x == Collected(a, kernel, r, c, TRUE, TRUE)
    IN IF x.seen = 0 THEN Nothing ELSE Just(x.total, 8 * Unit * distance)

Scaled(q, scale) == (scale * q[2]) \div q[3]
=============================================================================
