------------------------------ MODULE MCRasters ------------------------------
(* A session with rasters of a few types, of which one is changed in place.  *)
EXTENDS Rasters

CONSTANTS Types, Columns, Steps

Numbers == {BZero, BOf(4), BOf(-4), BOf(512), BOf(1016),
            BMul(BOf(4), BSub(BPow2(31), BOf(1))),
            BMul(BOf(4), BNeg(BPow2(31)))}
CellsOf(k) == {NoValue} \union {Value(v) : v \in {u \in Numbers : Holds(k, u, 4)}}

Raster(k, cells, at) ==
    [k |-> k, rows |-> 1, cols |-> Columns, at |-> <<at, 0>>,
     cell |-> <<4, -4>>,
     v |-> [i \in 1 .. Columns |-> cells[i][2]],
     n |-> [i \in 1 .. Columns |-> cells[i][1]]]
Rasters(at) == UNION {{Raster(k, cells, at) : cells \in [1 .. Columns -> CellsOf(k)]} :
                      k \in Types}
Scalars == {[k |-> "i64", v |-> v] : v \in Numbers}

VARIABLES a, b, steps

Init == a \in Rasters(1) /\ b \in Rasters(2) /\ steps = 0
Next ==
    /\ steps < Steps /\ steps' = steps + 1
    /\ b' = b
    /\ \/ CanChange(a, b) /\ a' = Sum(a, b)
       \/ \E c \in {Less(a, b), Greater(a, b)} :
              /\ CanChoose(c, a, b)
              /\ a' = Choice(c, a, b)
       \/ \E x \in Scalars : Holds(a.k, x.v, 4) /\ a' = Sum(x, a)
Spec == Init /\ [][Next]_<<a, b, steps>>

Inner == 1 .. Columns
Fine(r) == \A i \in Inner : ~r.n[i] => Holds(r.k, r.v[i], 4)

\* What a session can lead to.
Proper == Fine(a) /\ a.k \in Types /\ a.cols = Columns
\* The type and the place stay, and cells that have no value get none.
Stays == [][a'.k = a.k /\ a'.at = a.at /\ a'.cell = a.cell
            /\ \A i \in Inner : a.n[i] => a'.n[i]]_<<a, b, steps>>

SameCells(r, s) == r.v = s.v /\ r.n = s.n

Commutes == /\ SameCells(Sum(a, b), Sum(b, a))
            /\ SameCells(Product(a, b), Product(b, a))
            /\ Sum(a, b).k = Sum(b, a).k
PlaceOfFirst == \A r \in {Sum(a, b), Product(a, b), Less(a, b)} : r.at = a.at
Absorbs == \A i \in Inner : (a.n[i] \/ b.n[i]) =>
    \A r \in {Sum(a, b), Product(a, b), Less(a, b), Greater(a, b)} : r.n[i]
ResultsFit == Fine(Sum(a, b)) /\ Fine(Less(a, b))

Zero(k) == Zeros(k, 1, Columns, <<0, 0>>, <<1, 1>>)
Neutral == /\ SameCells(Sum(a, Zero(a.k)), a)
           /\ \A i \in Inner : ~a.n[i] => Product(a, Zero(a.k)).v[i] = BZero

\* A number is a raster with the same value everywhere.
Spread(x, k) == Raster(k, [i \in Inner |-> Value(x.v)], 3)
NumbersAreRasters == \A x \in Scalars : Holds(a.k, x.v, 4) =>
    /\ SameCells(Sum(a, x), Sum(a, Spread(x, a.k)))
    /\ SameCells(Product(x, a), Product(Spread(x, a.k), a))
    /\ SameCells(Less(x, a), Less(Spread(x, a.k), a))
    /\ Sum(x, a).at = a.at

Orders == \A i \in Inner :
    LET l == Less(a, b)
        g == Greater(a, b)
        one(r) == r.v[i] = Truth(TRUE)
    IN /\ ~(one(l) /\ one(g))
       /\ (~l.n[i] /\ ~one(l) /\ ~one(g)) => a.v[i] = b.v[i]

\* The highest of two.
Chooses == SameType(a, b) =>
    LET m == Choice(Less(a, b), b, a)
    IN /\ \A i \in Inner : Less(m, a).v[i] = BZero /\ Less(m, b).v[i] = BZero
       /\ \A i \in Inner : ~m.n[i] => m.v[i] \in {a.v[i], b.v[i]}
       /\ m.k = a.k
\* The value that is not chosen does not matter.
Ignores == SameType(a, b) =>
    LET one == Spread([v |-> BOf(4)], "u8")
    IN /\ SameCells(Choice(one, a, b), a)
       /\ SameCells(Choice(Zero("u8"), a, b), b)
=============================================================================
