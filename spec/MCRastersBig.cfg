SPECIFICATION Spec
CONSTANTS
    Types = {"u8", "i32"}
    Columns = 2
    Steps = 1
INVARIANTS Proper Commutes PlaceOfFirst Absorbs ResultsFit Neutral
    NumbersAreRasters Orders Chooses Ignores
PROPERTIES Stays
CHECK_DEADLOCK FALSE
