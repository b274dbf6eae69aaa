------------------------------- MODULE MCCore -------------------------------
(* Laws of CoreOps, for all small collections.                               *)
EXTENDS CoreOps, TLC, FiniteSets

CONSTANTS MaxLength, MaxValue

CellSet == {None} \union {Cell(x) : x \in 0 .. MaxValue}
Collections == UNION {[1 .. n -> CellSet] : n \in 0 .. MaxLength}
Pairs == {<<r, c>> \in (0 .. MaxLength) \X (0 .. MaxLength) :
            r * c <= MaxLength}
Offsets == -MaxLength - 1 .. MaxLength + 1

VARIABLES s, t
Init == s \in Collections /\ t \in [1 .. Len(s) -> CellSet]
Next == UNCHANGED <<s, t>>

Seqs == s = <<>> \/ DOMAIN s = 1 .. Len(s)

Map2(op(_, _), a, b) == [i \in 1 .. Len(a) |-> op(a[i], b[i])]

\* Decompressing what was compressed, with the same pattern, gives the original.
RoundTrip == Decompress(s, Compress(s)) = s
\* Compressing keeps the number of values and their order.
CompressLaw ==
    /\ Len(Compress(s)) = Values(s, Len(s))
    /\ Len(Compress(s)) = Cardinality({i \in 1 .. Len(s) : ~IsNone(s[i])})
\* Two moves of one sign are one move.
OffsetAdds ==
    t = s => \A p \in Pairs: p[1] * p[2] = Len(s) =>
        \A a, b, c \in Offsets:
            (a >= 0) = (b >= 0) =>
                Offset(Offset(s, p[1], p[2], a, c, None), p[1], p[2], b, 0,
                       None)
                    = Offset(s, p[1], p[2], a + b, c, None)
\* Not moving changes nothing; moving and moving back loses, but never invents.
OffsetBack ==
    t = s => \A p \in Pairs: p[1] * p[2] = Len(s) =>
        /\ Offset(s, p[1], p[2], 0, 0, None) = s
        /\ \A a, b \in Offsets:
            LET u == Offset(Offset(s, p[1], p[2], a, b, None), p[1], p[2], -a,
                            -b, None)
            IN \A i \in 1 .. Len(s): IsNone(u[i]) \/ u[i] = s[i]
\* The number of cells that an offset does not cover.
OffsetCount ==
    t = s => \A p \in Pairs: p[1] * p[2] = Len(s) =>
        \A a, b \in Offsets:
            LET Left(n, o) == IF Abs(o) >= n THEN 0 ELSE n - Abs(o)
                u == Offset([i \in 1 .. Len(s) |-> Cell(0)], p[1], p[2], a, b,
                            None)
            IN Values(u, Len(u)) = Left(p[1], a) * Left(p[2], b)
CoverLaw ==
    /\ Map2(Cover, s, s) = s
    /\ \A i \in 1 .. Len(s): IsNone(Cover(s[i], t[i])) <=>
                                IsNone(Intersect(s[i], t[i]))
IfLaw ==
    \A i \in 1 .. Len(s):
        /\ If(s[i], t[i]) = IfElse(s[i], t[i], None)
        /\ IfElse(s[i], t[i], t[i]) = (IF IsNone(s[i]) THEN None ELSE t[i])
MarkLaw ==
    \A i \in 1 .. Len(s):
        /\ IsNone(Unite(s[i], t[i])) <=>
                IsNone(Merge(s[i])) \/ IsNone(Merge(t[i]))
        /\ IsNone(Intersect(s[i], t[i])) => IsNone(Unite(s[i], t[i]))
CopyLaw ==
    \A from \in 0 .. Len(s): \A size \in 0 .. Len(s) - from:
        LET u == Copy(s, from, size, from)
        IN \A i \in 1 .. Len(s):
            u[i] = IF i > from /\ i <= from + size THEN s[i] ELSE Same
=============================================================================
