SPECIFICATION Spec
CONSTANTS
    Values = {0, 1}
    Shapes <- BigShapes
INVARIANTS Good RoundTrip
PROPERTY Keeps
VIEW View
CHECK_DEADLOCK FALSE
