----------------------------- MODULE MCConvolve -----------------------------
(* How a convolution is calculated: the raster is split in an inner part,    *)
(* where the kernel fits in the raster, four sides and four corners, and the *)
(* inner part in blocks. In each piece the *)
(* locations of the kernel that are in the raster, and those that are not,   *)
(* are found by clipping. The outcome must be as defined in ConvolveOps,     *)
(* whose laws are checked too.                                               *)
EXTENDS ConvolveOps

CONSTANTS MaxRows, MaxCols, Radii

Values == {-1, 2}
NoData == 9

Rasters(rows, cols) ==
    {[rows |-> rows, cols |-> cols,
      v |-> [i \in 1 .. rows * cols |-> IF f[i] = NoData THEN 0 ELSE f[i]],
      n |-> [i \in 1 .. rows * cols |-> f[i] = NoData]] :
        f \in [1 .. rows * cols -> Values \union {NoData}]}

Side(radius) == 2 * radius + 1
Kernels(radius) ==
    {[radius |-> radius, w |-> [i \in 1 .. Side(radius) * Side(radius) |->
        CASE kind = "one" -> 1
          [] kind = "corner" -> IF i = 1 THEN 2 ELSE 0
          [] kind = "steps" -> (i % 3) - 1]] :
        kind \in {"one", "corner", "steps"}}

\* A piece: rows r1 .. r2 - 1, columns c1 .. c2 - 1.
Pieces(a, radius, cut) ==
    LET rs == <<<<0, radius>>, <<radius, a.rows - radius>>,
                <<a.rows - radius, a.rows>>>>
        cs == <<<<0, radius>>, <<radius, a.cols - radius>>,
                <<a.cols - radius, a.cols>>>>
        whole == {<<rs[i], cs[j]>> : i \in 1 .. 3, j \in 1 .. 3}
        inner == <<rs[2], cs[2]>>
        \* Two blocks of the inner part.
        mid == Min2(radius + cut, a.rows - radius)
    IN IF cut = 0 THEN whole
       ELSE (whole \ {inner})
            \union {<<<<radius, mid>>, cs[2]>>,
                    <<<<mid, a.rows - radius>>, cs[2]>>}
CellsOf(p) == (p[1][1] .. p[1][2] - 1) \X (p[2][1] .. p[2][2] - 1)

VARIABLES a, kernel, nda, ooia, todo, result, times
vars == <<a, kernel, nda, ooia, todo, result, times>>

Init == \E radius \in Radii, rows \in 2 .. MaxRows, cols \in 2 .. MaxCols :
            /\ rows >= 2 * radius /\ cols >= 2 * radius
            /\ a \in Rasters(rows, cols)
            /\ kernel \in Kernels(radius)
            /\ nda \in BOOLEAN
            /\ ooia \in BOOLEAN
            /\ \E cut \in 0 .. 1 : todo = Pieces(a, radius, cut)
            /\ result = [x \in (0 .. rows - 1) \X (0 .. cols - 1) |-> <<>>]
            /\ times = [x \in (0 .. rows - 1) \X (0 .. cols - 1) |-> 0]

\* Clipping: the part of the kernel, and of the raster, that overlap.
Clip(r, size, radius) ==
    [kernel |-> Max2(radius - r, 0),
     source |-> Max2(r - radius, 0),
     n |-> Min2(r + radius, size - 1) - Max2(r - radius, 0) + 1]

\* All (kernel index, row, column) used for cell r, c.
Inner(r, c) ==
    LET radius == kernel.radius
        R == Clip(r, a.rows, radius)
        C == Clip(c, a.cols, radius)
    IN {<<(R.kernel + i) * Side(radius) + C.kernel + j + 1,
          R.source + i, C.source + j>> : i \in 0 .. R.n - 1, j \in 0 .. C.n - 1}
Outer(r, c) ==
    LET radius == kernel.radius
        R == Clip(r, a.rows, radius)
        C == Clip(c, a.cols, radius)
    IN {<<i * Side(radius) + j + 1, r + i - radius, c + j - radius>> :
            i \in {i \in 0 .. 2 * radius : TRUE},
            j \in {j \in 0 .. 2 * radius : TRUE}}
       \ {<<i * Side(radius) + j + 1, r + i - radius, c + j - radius>> :
            i \in R.kernel .. R.kernel + R.n - 1,
            j \in C.kernel .. C.kernel + C.n - 1}

RECURSIVE Total(_, _)
Total(xs, acc) ==
    IF xs = {} THEN acc
    ELSE LET x == CHOOSE x \in xs : TRUE
             w == kernel.w[x[1]]
             y == IF w = 0 THEN None
                  ELSE IF Inside(a, x[2], x[3])
                  THEN IF IsValid(a, x[2], x[3])
                       THEN Some(Unit * a.v[At(a, x[2], x[3])])
                       ELSE IF nda THEN Average(a, x[2], x[3]) ELSE None
                  ELSE IF ooia THEN Average(a, x[2], x[3]) ELSE None
         IN Total(xs \ {x},
                IF y[1] THEN <<acc[1] + 1, acc[2] + w * y[2], acc[3] + w>>
                ELSE acc)
Calculate(r, c) == Total(Inner(r, c) \union Outer(r, c), <<0, 0, 0>>)

\* One order will do: a piece neither reads nor writes what another writes.
Piece == LET p == CHOOSE p \in todo : TRUE
              IN /\ todo # {}
                 /\ todo' = todo \ {p}
                 /\ result' = [x \in DOMAIN result |->
                      IF x \in CellsOf(p) THEN Calculate(x[1], x[2])
                      ELSE result[x]]
                 /\ times' = [x \in DOMAIN times |->
                      times[x] + (IF x \in CellsOf(p) THEN 1 ELSE 0)]
                 /\ UNCHANGED <<a, kernel, nda, ooia>>
Done == todo = {} /\ UNCHANGED vars
Next == Piece \/ Done

Once == /\ \A x \in DOMAIN times : times[x] <= 1
        /\ todo = {} => \A x \in DOMAIN times : times[x] = 1
AsDefined ==
    todo = {} =>
        \A x \in DOMAIN result :
            LET y == Collected(a, kernel, x[1], x[2], nda, ooia)
            IN result[x] = <<y.seen, y.total, y.weight>>

\* Laws of the definition.
Cells == (0 .. a.rows - 1) \X (0 .. a.cols - 1)
Uniform == kernel.w = [i \in DOMAIN kernel.w |-> 1]
Laws ==
    todo # {} \/
    \A x \in Cells :
        LET y == Collected(a, kernel, x[1], x[2], nda, ooia)
            plain == Collected(a, kernel, x[1], x[2], FALSE, FALSE)
            negated == [a EXCEPT !.v = [i \in DOMAIN a.v |-> -a.v[i]]]
            shifted == [a EXCEPT !.v = [i \in DOMAIN a.v |-> a.v[i] + 3]]
            lo == -Unit
            hi == 2 * Unit
        IN \* Replacing only adds.
           /\ plain.seen <= y.seen
           \* Positive and negative parts.
           /\ y.total = y.high + y.low
           \* Linear.
           /\ LET z == Collected(negated, kernel, x[1], x[2], FALSE, FALSE)
              IN z.total = -plain.total /\ z.seen = plain.seen
           /\ LET z == Collected(shifted, kernel, x[1], x[2], FALSE, FALSE)
              IN z.total = plain.total + 3 * Unit * plain.weight
           \* An average lies between the values averaged.
           /\ Uniform /\ y.seen > 0 =>
                /\ y.weight = y.seen
                /\ y.total >= lo * y.weight /\ y.total <= hi * y.weight
           \* Mirrored.
           /\ LET m(i) == LET r == (i - 1) \div a.cols
                              c == (i - 1) % a.cols
                          IN At(a, r, a.cols - 1 - c)
                  s == Side(kernel.radius)
                  mw(i) == LET r == (i - 1) \div s
                               c == (i - 1) % s
                           IN r * s + s - c
                  b == [a EXCEPT !.v = [i \in DOMAIN a.v |-> a.v[m(i)]],
                                 !.n = [i \in DOMAIN a.n |-> a.n[m(i)]]]
                  k == [kernel EXCEPT
                        !.w = [i \in DOMAIN kernel.w |-> kernel.w[mw(i)]]]
                  z == Collected(b, k, x[1], a.cols - 1 - x[2], nda, ooia)
              IN z.seen = y.seen /\ z.total = y.total
=============================================================================
