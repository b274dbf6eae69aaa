------------------------------- MODULE CoreOps -------------------------------
(* Operations that move, select or mark values. A cell is no-data (None), or *)
(* holds a value. A collection is a sequence of cells, row by row; a scalar  *)
(* is a collection of one cell that is used for every cell of the others.    *)
EXTENDS Kinds

None == [is |-> "no-data", v |-> 0]
Cell(x) == [is |-> "value", v |-> x]
\* A cell that the operation leaves alone.
Same == [is |-> "same", v |-> 0]
IsNone(c) == c.is = "no-data"

Nth(s, d, i) == IF d = 0 THEN s[1] ELSE s[i]

\* Selection ----------------------------------------------------------------
If(c, t) == IF IsNone(c) THEN None ELSE IF c.v # 0 THEN t ELSE None
IfElse(c, t, f) == IF IsNone(c) THEN None ELSE IF c.v # 0 THEN t ELSE f
Cover(a, b) == IF IsNone(a) THEN b ELSE a

\* Marking --------------------------------------------------------------------
Merge(a) == IF IsNone(a) THEN None ELSE Same
Unite(a, b) == IF IsNone(a) \/ IsNone(b) THEN None ELSE Same
Intersect(a, b) == IF IsNone(a) /\ IsNone(b) THEN None ELSE Same

\* Values ---------------------------------------------------------------------
\* The bounds hold values, low <= high.
Clamp(a, low, high) ==
    IF IsNone(a) THEN None
    ELSE IF a.v < low.v THEN low ELSE IF high.v < a.v THEN high ELSE a

\* Moving ---------------------------------------------------------------------
\* The values of s, in order, without no-data.
RECURSIVE Compress(_)
Compress(s) ==
    IF s = <<>> THEN <<>>
    ELSE (IF IsNone(Head(s)) THEN <<>> ELSE <<Head(s).v>>) \o Compress(Tail(s))

\* The number of values in the first i cells of s.
RECURSIVE Values(_, _)
Values(s, i) == IF i = 0 THEN 0
                ELSE Values(s, i - 1) + IF IsNone(s[i]) THEN 0 ELSE 1

\* Values at the cells of the pattern that are not no-data.
Decompress(pattern, values) ==
    [i \in 1 .. Len(pattern) |->
        IF IsNone(pattern[i]) THEN None
        ELSE Cell(values[Values(pattern, i)])]

\* Cells from + 1 .. from + size of s, to to + 1 and on.
Copy(s, from, size, to) ==
    [i \in 1 .. Len(s) |->
        IF i > to /\ i <= to + size THEN s[i - to + from] ELSE Same]

\* A cell (row, col), from 1, of a collection of rows x cols.
Row(i, cols) == ((i - 1) \div cols) + 1
Col(i, cols) == ((i - 1) % cols) + 1
Index(row, col, cols) == (row - 1) * cols + col
Inside(row, col, rows, cols) ==
    /\ row >= 1 /\ row <= rows
    /\ col >= 1 /\ col <= cols

\* Every cell moves by (o1, o2). Cells that none moved to become `uncovered`.
Offset(s, rows, cols, o1, o2, uncovered) ==
    [i \in 1 .. Len(s) |->
        LET row == Row(i, cols) - o1
            col == Col(i, cols) - o2
        IN IF Inside(row, col, rows, cols) THEN s[Index(row, col, cols)]
           ELSE uncovered]
=============================================================================
