--------------------------- MODULE ConvolveTrace ---------------------------
(* Recorded convolutions, against ConvolveOps.                               *)
EXTENDS ConvolveOps, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* must: the cell has to be marked; may: it may be.
CellOk(e, i, must, may, isValue) ==
    LET marked == e.rn[i]
    IN CASE e.out = "dont" -> must \/ may \/ isValue
         [] e.out = "mask" ->
                IF must THEN marked
                ELSE \/ may /\ marked
                     \/ isValue /\ marked = e.p[i]
         [] OTHER -> IF must THEN marked ELSE (may /\ marked) \/ isValue

Ok(e) ==
    /\ e.crash = 0
    /\ e.same
    /\ LET a == [rows |-> e.rows, cols |-> e.cols, v |-> e.v1, n |-> e.n1]
           kernel == [radius |-> e.radius, w |-> e.w]
       IN \A i \in 1..e.rows * e.cols :
              LET r == (i - 1) \div e.cols
                  c == (i - 1) % e.cols
                  x == Collected(a, kernel, r, c, e.nda, e.ooia)
                  focus == e.keep /\ e.n1[i]
                  bound == 4 * Unit
                  must == \/ focus
                          \/ x.seen = 0
                          \/ e.huge /\ Abs(x.total) >= bound
                  may == e.huge /\ (x.high >= bound \/ x.low <= -bound)
                  y == Result(x, e.div, IF e.huge THEN 1 ELSE 1000)
              IN CellOk(e, i, must, may,
                     ~must => IF e.huge THEN e.r[i] = y
                              ELSE e.r[i] \in y - 1..y + 2)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
