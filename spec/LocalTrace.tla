----------------------------- MODULE LocalTrace -----------------------------
(* Recorded calls of local operations, against LocalOps.                     *)
EXTENDS LocalOps, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

At(s, d, i) == IF d = 0 THEN s[1] ELSE s[i]

\* How a cell is reported depends on the output policy. p: the cell was marked
\* already; it stays so. rn: it is marked.
Reported(e, i, none, isValue) ==
    CASE e.out = "dont" -> none \/ isValue
      [] e.out = "mask" ->
            IF none THEN e.rn[i] ELSE isValue /\ e.rn[i] = e.p[i]
      [] OTHER -> IF none THEN e.rn[i] ELSE isValue

CellOk(e, i) ==
    LET a == At(e.v1, e.d1, i)
        na == At(e.n1, e.d1, i)
        r == e.r[i]
    IN IF e.op = "defined" THEN r = Bool(~na)
       ELSE IF "d2" \in DOMAIN e
       THEN LET b == At(e.v2, e.d2, i)
                nb == At(e.n2, e.d2, i)
                none == \/ na \/ nb
                        \/ IF e.big THEN BigOutside2(e.op, e.kr, a, b)
                           ELSE Outside2(e.op, e.kr, e.bound, a, b)
            IN Reported(e, i, none,
                   ~none => IF e.big THEN BigIs2(e.op, r, a, b)
                            ELSE Is2(e.op, e.kr, r, a, b))
       ELSE LET none == na \/ IF e.big THEN BigOutside1(e.op, e.kr, a)
                              ELSE Outside1(e.op, e.kr, a)
            IN Reported(e, i, none,
                   ~none => IF e.big THEN BigIs1(e.op, r, a)
                            ELSE Is1(e.op, e.kr, r, a))

\* The type of the result follows from the types of the arguments.
TypeOk(e) == e.op \in Arithmetic => e.kr = ResultKind(e.k1, e.k2)

Ok(e) ==
    /\ e.crash = 0
    /\ e.same           \* the arguments are as they were
    /\ TypeOk(e)
    /\ \A i \in 1 .. Len(e.r): CellOk(e, i)

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
