SPECIFICATION Spec
CONSTANTS
    Types = {"u8", "i32", "u32", "f32"}
    Columns = 1
    Steps = 2
INVARIANTS Proper Commutes PlaceOfFirst Absorbs ResultsFit Neutral
    NumbersAreRasters Orders Chooses Ignores
PROPERTIES Stays
CHECK_DEADLOCK FALSE
