------------------------------- MODULE MCAgg --------------------------------
(* How aggregates are calculated: the cells are split in consecutive blocks, *)
(* each block is aggregated cell by cell, and the results of the blocks are  *)
(* merged in order. Whatever the blocks, the outcome is one that AggTrace    *)
(* allows. The sum type is -2^(B-1) .. 2^(B-1)-1; a sum that does not fit is *)
(* reported, and ends the aggregation of the block.                          *)
EXTENDS AggOps, FiniteSets

CONSTANTS MaxLength, Below, High
Low == -Below

Values == Low .. High
Sequences == UNION {[1 .. n -> Values] : n \in 1 .. MaxLength}
InType(x) == x >= Low /\ x <= High

VARIABLES
    cells,      \* The valid cells.
    cuts,       \* The blocks end after these cells.
    at,         \* Number of cells seen.
    block,      \* [sum, max, min, n, reported] of the current block
    all         \* and of the blocks before.
vars == <<cells, cuts, at, block, all>>

None == [sum |-> 0, max |-> Low, min |-> High, n |-> 0, rep |-> FALSE]
Add(a, x) ==
    [sum |-> IF a.rep THEN a.sum ELSE a.sum + x,
     max |-> IF x > a.max THEN x ELSE a.max,
     min |-> IF x < a.min THEN x ELSE a.min,
     n |-> a.n + 1,
     rep |-> a.rep \/ ~InType(a.sum + x)]
Merge(a, b) ==
    [sum |-> a.sum + b.sum,
     max |-> IF b.max > a.max THEN b.max ELSE a.max,
     min |-> IF b.min < a.min THEN b.min ELSE a.min,
     n |-> a.n + b.n,
     rep |-> a.rep \/ b.rep \/ ~InType(a.sum + b.sum)]

Init == /\ cells \in Sequences
        /\ cuts \in SUBSET (1 .. Len(cells) - 1)
        /\ at = 0
        /\ block = None
        /\ all = None
Cell == /\ at < Len(cells)
        /\ at' = at + 1
        /\ LET b == Add(block, cells[at + 1])
           IN IF at + 1 \in cuts \/ at + 1 = Len(cells)
              THEN block' = None /\ all' = Merge(all, b)
              ELSE block' = b /\ all' = all
        /\ UNCHANGED <<cells, cuts>>
Done == at = Len(cells) /\ UNCHANGED vars
Next == Cell \/ Done

FitsType(x) == InType(x)
SumSound ==
    at = Len(cells) =>
        LET sums == Sums(FALSE, cells)
            must == ~FitsType(sums.total)
            may == ~FitsType(sums.high) \/ ~FitsType(sums.low)
        IN /\ must => all.rep
           /\ all.rep => may
           /\ ~all.rep => all.sum = sums.total
ExtremesSound ==
    at = Len(cells) => /\ all.max = Max(FALSE, cells)
                       /\ all.min = Min(FALSE, cells)
                       /\ all.n = Len(cells)
\* The median lies between the values, half of them on either side.
MedianLaw ==
    at = 0 =>
        LET m == Median2(FALSE, cells)
            below == Cardinality({i \in DOMAIN cells : 2 * cells[i] < m})
            above == Cardinality({i \in DOMAIN cells : 2 * cells[i] > m})
        IN 2 * below <= Len(cells) /\ 2 * above <= Len(cells)
=============================================================================
