----------------------------- MODULE FieldTrace -----------------------------
(* Recorded operations on fields, against FieldOps.                          *)
EXTENDS FieldOps, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

Close(x, q, scale) == LET y == Scaled(q, scale) IN x \in y - 1 .. y + 2

\* x = sqrt(p^2 + q^2), in thousandths.
IsHypotenuse(x, p, q) ==
    LET y == Scaled(p, 1000)
        z == Scaled(q, 1000)
        s == y * y + z * z
        low == IF x < 3 THEN 0 ELSE x - 3
    IN /\ x >= 0 /\ x < 40000
       /\ low * low <= s /\ s <= (x + 3) * (x + 3)

\* [must, ok]: whether the cell must be marked, and has the right value.
Expected(e, a, i) ==
    LET r == (i - 1) \div e.cols
        c == (i - 1) % e.cols
        of(q) == [must |-> ~q[1], ok |-> q[1] /\ Close(e.r[i], q, 1000)]
    IN IF e.n1[i] THEN [must |-> TRUE, ok |-> FALSE]
       ELSE CASE e.op = "gradient_x" -> of(Gradient(a, r, c, 0, 1, e.w))
              [] e.op = "gradient_y" -> of(Gradient(a, r, c, 1, 0, e.h))
              [] e.op = "laplacian" -> of(Laplacian(a, r, c, e.w * e.h))
              [] e.op = "lax" -> of(Lax(a, r, c, e.k))
              [] e.op = "slope" ->
                    LET x == SlopeIn(a, East3, r, c, e.w)
                        y == SlopeIn(a, South3, r, c, e.h)
                        must == ~x[1] \/ ~y[1]
                    IN [must |-> must,
                        ok |-> ~must /\ IsHypotenuse(e.r[i], x, y)]

Ok(e) ==
    /\ e.crash = 0
    /\ e.same
    /\ LET a == [rows |-> e.rows, cols |-> e.cols, v |-> e.v1, n |-> e.n1]
       IN \A i \in 1 .. e.rows * e.cols :
              LET x == Expected(e, a, i)
              IN IF x.must THEN e.out = "dont" \/ e.rn[i]
                 ELSE x.ok /\ e.rn[i] = e.p[i]

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
