----------------------------- MODULE MCPartition -----------------------------
(* For all numbers of threads and sizes: the blocks are a partition, and     *)
(* every cell is in one block.                                               *)
EXTENDS Partition, FiniteSets

CONSTANTS MaxThreads, MaxSize
VARIABLES n, size
Init == n \in 1 .. MaxThreads /\ size \in 0 .. MaxSize
Next == UNCHANGED <<n, size>>

Sound == IsPartition(Blocks(n, size), n, size)
OneBlock ==
    LET b == Blocks(n, size)
    IN \A c \in 0 .. size - 1:
        Cardinality({i \in 1 .. Len(b) : b[i][1] <= c /\ c < b[i][2]}) = 1
Bound == Len(Blocks(n, size)) <= 2 * n
=============================================================================
