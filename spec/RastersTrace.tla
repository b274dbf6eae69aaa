---------------------------- MODULE RastersTrace ----------------------------
(* Recorded uses of the Python bindings, against Rasters.                    *)
EXTENDS Rasters, IOUtils, Json, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* The object that Python sees, and the raster that it is.
SameFrame(r, x) ==
    /\ r.k = x.k
    /\ r.rows = x.rows /\ r.cols = x.cols
    /\ r.at = x.at /\ r.cell = x.cell
    /\ r.agree
Same(r, x) ==
    /\ SameFrame(r, x)
    /\ r.n = x.n
    /\ \A i \in Cells(x) : ~x.n[i] => r.v[i] = x.v[i]

\* x = sqrt(p^2 + q^2), in thousandths.
IsHypotenuse(x, p, q) ==
    LET y == Scaled(p, 1000)
        z == Scaled(q, 1000)
        s == y * y + z * z
        low == IF x < 3 THEN 0 ELSE x - 3
    IN /\ x >= 0 /\ x < 40000
       /\ low * low <= s /\ s <= (x + 3) * (x + 3)

Slopes(e) ==
    LET a == [rows |-> e.a.rows, cols |-> e.a.cols, v |-> e.a.w, n |-> e.a.n]
        w == e.a.cell[1]
        h == Abs(e.a.cell[2])
    IN /\ SameFrame(e.r, e.a)
       /\ \A i \in Cells(e.a) :
              LET r == (i - 1) \div a.cols
                  c == (i - 1) % a.cols
                  x == SlopeIn(a, East3, r, c, w)
                  y == SlopeIn(a, South3, r, c, h)
              IN IF a.n[i] \/ ~x[1] \/ ~y[1] THEN e.r.n[i]
                 ELSE ~e.r.n[i] /\ IsHypotenuse(e.r.w[i], x, y)

Can(e) ==
    CASE e.op \in {"make", "zeros"} -> TRUE
      [] e.op \in {"add", "multiply", "less", "greater"} ->
             CanCombine(e.a, e.b)
      [] e.op \in {"iadd", "imultiply"} ->
             CanChange(e.a, e.b)
      [] e.op = "if" -> CanChoose(e.c, e.a, e.b)
      [] e.op = "slope" -> CanTilt(e.a)
      [] e.op = "unusual" -> FALSE
      [] e.op = "write" -> CanStore(e.a) /\ e.to = "file"
      [] e.op = "read" -> e.there /\ e.known

Expected(e) ==
    CASE e.op \in {"make", "write"} -> e.a
      [] e.op = "zeros" -> Zeros(e.k, e.rows, e.cols, e.at, e.cell)
      [] e.op \in {"add", "iadd"} -> Sum(e.a, e.b)
      [] e.op \in {"multiply", "imultiply"} -> Product(e.a, e.b)
      [] e.op = "less" -> Less(e.a, e.b)
      [] e.op = "greater" -> Greater(e.a, e.b)
      [] e.op = "if" -> Choice(e.c, e.a, e.b)
      [] e.op = "read" -> [k |-> e.k, rows |-> e.rows, cols |-> e.cols,
                           at |-> e.at, cell |-> e.cell, v |-> e.v, n |-> e.n]

Changes == {"iadd", "imultiply"}

\* Arguments are as they were.
Kept2(e) ==
    /\ "c2" \in DOMAIN e => e.c2 = e.c
    /\ "a2" \in DOMAIN e /\ ~(e.op \in Changes /\ ~e.error) => e.a2 = e.a
    /\ "b2" \in DOMAIN e /\ ~(e.op \in Changes /\ e.itself) => e.b2 = e.b

Ok(e) ==
    /\ e.crash = 0
    /\ e.error = ~Can(e)
    /\ Kept2(e)
    /\ ~e.error =>
           IF e.op = "slope" THEN Slopes(e)
           ELSE /\ Same(e.r, Expected(e))
                /\ e.op \in Changes => e.same

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
