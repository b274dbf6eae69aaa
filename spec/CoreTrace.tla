------------------------------ MODULE CoreTrace ------------------------------
(* Recorded calls of the operations that move, select or mark values,        *)
(* against CoreOps.                                                           *)
EXTENDS CoreOps, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

Cells(v, n) == [i \in 1 .. Len(v) |-> IF n[i] THEN None ELSE Cell(v[i])]

\* How a cell is reported depends on the output policy. p: the cell was marked
\* already; it stays so. rn: it is marked now, in the mask or by its value.
CellOk(e, i, want) ==
    LET held == IF want = Same THEN e.r[i] = e.before[i] ELSE e.r[i] = want.v
    IN CASE e.out = "dont" -> IsNone(want) \/ held
         [] e.out = "mask" -> IF IsNone(want) THEN e.rn[i]
                              ELSE held /\ e.rn[i] = e.p[i]
         [] OTHER -> IF IsNone(want) THEN e.rn[i] ELSE held

Want(e) ==
    LET one == Cells(e.v1, e.n1)
        two == Cells(e.v2, e.n2)
        three == Cells(e.v3, e.n3)
        A(i) == Nth(one, e.d1, i)
        B(i) == Nth(two, e.d2, i)
        C(i) == Nth(three, e.d3, i)
        Each(f(_)) == [i \in 1 .. Len(e.r) |-> f(i)]
    IN CASE e.op = "if" -> Each(LAMBDA i: If(A(i), B(i)))
         [] e.op = "if_else" -> Each(LAMBDA i: IfElse(A(i), B(i), C(i)))
         [] e.op = "cover" -> Each(LAMBDA i: Cover(A(i), B(i)))
         [] e.op = "merge" -> Each(LAMBDA i: Merge(A(i)))
         [] e.op = "unite" -> Each(LAMBDA i: Unite(A(i), B(i)))
         [] e.op = "intersect" -> Each(LAMBDA i: Intersect(A(i), B(i)))
         [] e.op = "clamp" -> Each(LAMBDA i: Clamp(A(i), B(i), C(i)))
         [] e.op = "fill" -> Each(LAMBDA i: A(i))
         [] e.op = "cast" ->
                Each(LAMBDA i:
                    IF IsNone(A(i)) THEN None
                    ELSE IF e.fromf /\ ~e.tof
                         THEN Cell(Quotient(A(i).v, 8))  \* From eighths.
                         ELSE A(i))
         [] e.op = "decompress" -> Decompress(one, e.v2)
         [] e.op = "copy" -> Copy(one, e.from, e.size, e.to)
         [] e.op = "offset" ->
                Offset(one, e.rows, e.cols, e.o1, e.o2,
                       IF e.filled THEN Cell(e.fill) ELSE None)

Size(e) == e.rows * e.cols

Ok(e) ==
    /\ e.crash = 0
    /\ e.same           \* the arguments are as they were
    /\ IF e.op = "compress"
       THEN LET values == Compress(Cells(e.v1, e.n1))
            IN /\ e.count = Len(values)
               /\ SubSeq(e.r, 1, e.count) = values
       ELSE LET want == Want(e)
            IN /\ Len(e.r) = Len(want)
               /\ \A i \in 1 .. Len(want): CellOk(e, i, want[i])

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
