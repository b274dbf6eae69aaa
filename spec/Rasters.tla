------------------------------- MODULE Rasters -------------------------------
(* Rasters as the Python bindings handle them. A raster has a type, a number *)
(* of rows and columns, a place, a cell size and, per cell, a value or none. *)
(* Values are counted in quarters: digits, most often larger than TLC's own  *)
(* integers. An argument of an operation is a raster or a number.            *)
EXTENDS FieldOps, Kinds

Quarters == 4
Known == {"u8", "u32", "i32", "u64", "i64", "f32", "f64"}
InFiles == {"u8", "u16", "i16", "u32", "i32", "f32", "f64"}

IsRaster(x) == "rows" \in DOMAIN x
Cells(x) == 1 .. x.rows * x.cols

NoValue == <<TRUE, BZero>>
Value(v) == <<FALSE, v>>

\* Cell i of an argument: a number is the same everywhere.
CellOf(x, i) == IF ~IsRaster(x) THEN Value(x.v)
                ELSE IF x.n[i] THEN NoValue ELSE Value(x.v[i])

\* The value that means that there is none: the lowest one of a type with
\* sign, the highest one of a type without.
LOCAL Bound(k, which, unit) ==
    BMul(BOf(unit), IF which = "low" THEN BigLo(k) ELSE BigHi(k))
LOCAL BoundTable == [k \in IntKinds |-> [u \in {4, 16} |->
    [low |-> Bound(k, "low", u), high |-> Bound(k, "high", u)]]]

\* Whether a cell of type k can hold the value, in the unit.
Holds(k, v, unit) ==
    k \in IntKinds =>
        LET low == BoundTable[k][unit].low
            high == BoundTable[k][unit].high
        IN IF k \in Signed THEN BLeq(low, v) /\ low # v /\ BLeq(v, high)
           ELSE BLeq(low, v) /\ BLeq(v, high) /\ v # high

Kept(k, cell, unit) ==
    IF cell[1] \/ ~Holds(k, cell[2], unit) THEN NoValue ELSE cell

\* A number takes the type of the raster that it is combined with.
TypeOf(a, b) == IF IsRaster(a) /\ IsRaster(b) THEN ResultKind(a.k, b.k)
                ELSE IF IsRaster(a) THEN a.k ELSE b.k
Frame(a, b) == IF IsRaster(a) THEN a ELSE b

Both(a, b, i, Op(_, _)) ==
    LET x == CellOf(a, i)
        y == CellOf(b, i)
    IN IF x[1] \/ y[1] THEN NoValue ELSE Value(Op(x[2], y[2]))

\* A raster in the frame of another one, cell by cell.
Filled(frame, k, Cell(_)) ==
    LET cells == [i \in Cells(frame) |-> Cell(i)]
    IN [k |-> k, rows |-> frame.rows, cols |-> frame.cols,
        at |-> frame.at, cell |-> frame.cell,
        v |-> [i \in Cells(frame) |-> cells[i][2]],
        n |-> [i \in Cells(frame) |-> cells[i][1]]]

Sum(a, b) ==
    LET k == TypeOf(a, b)
    IN Filled(Frame(a, b), k, LAMBDA i : Kept(k, Both(a, b, i, BAdd), 4))

\* Values are counted in sixteenths.
Product(a, b) ==
    LET k == TypeOf(a, b)
    IN Filled(Frame(a, b), k, LAMBDA i : Kept(k, Both(a, b, i, BMul), 16))

Truth(b) == IF b THEN BOf(Quarters) ELSE BZero
IsLess(x, y) == Truth(BLeq(x, y) /\ x # y)
IsGreater(x, y) == IsLess(y, x)
Less(a, b) == Filled(Frame(a, b), "u8", LAMBDA i : Both(a, b, i, IsLess))
Greater(a, b) ==
    Filled(Frame(a, b), "u8", LAMBDA i : Both(a, b, i, IsGreater))

\* Only the value that is chosen matters.
Choice(c, a, b) ==
    LET k == IF IsRaster(a) THEN a.k ELSE b.k
    IN Filled(c, k, LAMBDA i :
           LET x == CellOf(c, i)
           IN IF x[1] THEN NoValue
              ELSE Kept(k, CellOf(IF x[2] # BZero THEN a ELSE b, i), 4))

Zeros(k, rows, cols, at, cell) ==
    Filled([rows |-> rows, cols |-> cols, at |-> at, cell |-> cell], k,
           LAMBDA i : Value(BZero))

\* Operations that change a raster, and choices, take one type.
SameType(a, b) == IsRaster(a) /\ IsRaster(b) => a.k = b.k
SameSize(a, b) == IsRaster(a) /\ IsRaster(b) =>
                      a.rows = b.rows /\ a.cols = b.cols
CanCombine(a, b) == /\ \A x \in {a, b} : IsRaster(x) => x.k \in Known
                    /\ SameSize(a, b)
CanChange(a, b) == CanCombine(a, b) /\ SameType(a, b)
CanChoose(c, a, b) == /\ CanCombine(c, a) /\ CanCombine(c, b)
                      /\ SameType(a, b)
\* A slope needs a neighbour in each direction.
CanTilt(a) == a.k \in Floats /\ a.rows > 1 /\ a.cols > 1
CanStore(a) == a.k \in InFiles
=============================================================================
