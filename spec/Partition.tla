------------------------------ MODULE Partition ------------------------------
(* How an array is split in blocks for n threads. A block is <<b, e>>: the   *)
(* indices from b up to, but not including, e.                               *)
EXTENDS Integers, Sequences

CeilDiv(x, y) == (x + y - 1) \div y

IsPartition(blocks, n, size) ==
    LET k == Len(blocks)
    IN /\ size = 0 <=> k = 0
       /\ k > 0 => blocks[1][1] = 0 /\ blocks[k][2] = size
       /\ \A i \in 1 .. k: blocks[i][1] < blocks[i][2]
       /\ \A i \in 1 .. k - 1: blocks[i][2] = blocks[i + 1][1]
       \* Small arrays are not split. Otherwise every thread can have work,
       \* and no block is larger than it has to be.
       /\ size > 0 /\ size < n => k = 1
       /\ size >= n => /\ k >= n \/ size = 0
                       /\ \A i \in 1 .. k:
                            blocks[i][2] - blocks[i][1] <= CeilDiv(size, n)

\* Blocks of floor(size / n), and what remains.
Blocks(n, size) ==
    LET length == size \div n
        k == IF length > 0 THEN size \div length ELSE 0
        rest == size - k * length
        full == [i \in 1 .. k |-> <<(i - 1) * length, i * length>>]
    IN IF rest > 0 THEN Append(full, <<k * length, size>>) ELSE full
=============================================================================
