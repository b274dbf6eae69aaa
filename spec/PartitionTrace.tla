---------------------------- MODULE PartitionTrace ----------------------------
(* Recorded partitions, and recorded properties of ranges.                   *)
EXTENDS Partition, TLC, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* A recorded range: [b, e, size, empty].
Size(r) == r[2] - r[1]
RangeOk(r, size, empty) ==
    r[1] <= r[2] /\ size = Size(r) /\ (empty <=> r[1] = r[2])

Pairs(s) == [i \in 1 .. Len(s) \div 2 |-> <<s[2 * i - 1], s[2 * i]>>]

Ok(e) ==
    /\ e.crash = 0
    /\ CASE e.op = "split1" -> IsPartition(Pairs(e.rows), e.n, e.rows_size)
         [] e.op = "split2" ->
                /\ IsPartition(Pairs(e.rows), e.n, e.rows_size)
                \* Rows are not split.
                /\ \A i \in 1 .. Len(e.rows) \div 2:
                    Pairs(e.cols)[i] = <<0, e.cols_size>>
                /\ Len(e.cols) = Len(e.rows)
         [] e.op = "range" ->
                LET a == <<e.a[1], e.a[2]>>
                    b == <<e.b[1], e.b[2]>>
                    c == <<e.a[1], e.b[2]>>
                IN /\ RangeOk(a, e.sizes[1], e.empties[1])
                   /\ RangeOk(b, e.sizes[2], e.empties[2])
                   /\ e.eq = (a = b) /\ e.ne = (a # b)
                   /\ RangeOk(c, e.sizes[3], e.empties[3])
                   /\ e.end = c
                   \* In two dimensions.
                   /\ e.sizes[4] = Size(a) * Size(b)
                   /\ e.empties[4] = (Size(a) = 0 \/ Size(b) = 0)
                   /\ e.eq2 = (<<a, b>> = <<b, a>>)
                   /\ e.ne2 = (<<a, b>> # <<b, a>>)
                   /\ e.copy

VARIABLES l, bad

Init == l = 0 /\ bad = {}
Next == /\ l < Len(Trace)
        /\ l' = l + 1
        /\ bad' = IF Ok(Trace[l + 1]) THEN bad ELSE bad \union {l + 1}
        /\ l' = Len(Trace) => PrintT(<<"VERDICT", l', bad'>>)
=============================================================================
