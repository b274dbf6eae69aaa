------------------------------ MODULE AggTrace ------------------------------
(* Recorded calls of aggregating operations, against AggOps.                 *)
EXTENDS AggOps, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE Valid(_, _, _, _)
Valid(v, n, i, acc) ==
    IF i > Len(v) THEN acc
    ELSE Valid(v, n, i + 1, IF n[i] THEN acc ELSE Append(acc, v[i]))

\* must: no result has to be reported; may: it may be.
Reported(e, must, may, isValue) ==
    LET is == isValue
        marked == e.rn[1]
    IN CASE e.out = "dont" -> must \/ may \/ is
         [] e.out = "mask" ->
                IF must THEN marked
                ELSE \/ may /\ marked
                     \/ is /\ marked = e.p[1]
         [] OTHER -> IF must THEN marked ELSE (may /\ marked) \/ is

SumOk(e, s) ==
    LET sums == Sums(e.big, s)
        n == Len(s)
        must == n = 0 \/ MustReport(e.big, e.kr, e.bound, sums)
        may == MayReport(e.big, e.kr, e.bound, sums)
    IN Reported(e, must, may,
                ~must => IF e.op = "sum" THEN e.r[1] = sums.total
                         ELSE IsMean(e.big, e.kr, e.r[1], sums.total, n, 8))

Ok(e) ==
    /\ e.crash = 0
    /\ e.same
    /\ LET s == Valid(e.v1, e.n1, 1, <<>>)
       IN CASE e.op \in {"sum", "mean"} -> SumOk(e, s)
            [] e.op = "max" -> Reported(e, s = <<>>, FALSE,
                                        s # <<>> => e.r[1] = Max(e.big, s))
            [] e.op = "min" -> Reported(e, s = <<>>, FALSE,
                                        s # <<>> => e.r[1] = Min(e.big, s))
            [] e.op = "count" -> Reported(e, s = <<>>, FALSE,
                                          s # <<>> => e.r[1] = Count(s, e.x))

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
