SPECIFICATION Spec
CONSTANTS
    Tags = {"gpx", "wpt", "trk", "trkseg", "trkpt"}
    Leaves = {"ele", "name", "blah"}
    Longest = 8
    Versions = {0, 1}
INVARIANTS Same Stays Balanced Complete Roots
CHECK_DEADLOCK FALSE
