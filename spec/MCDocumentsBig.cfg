SPECIFICATION Spec
CONSTANTS
    Tags = {"gpx", "wpt", "trk", "trkseg", "trkpt", "rte", "metadata"}
    Leaves = {"ele", "name", "blah"}
    Longest = 10
    Versions = {0, 1}
INVARIANTS Same Stays Balanced Complete Roots
CHECK_DEADLOCK FALSE
