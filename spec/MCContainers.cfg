SPECIFICATION Spec
CONSTANTS
    Values = {0, 1}
    Shapes <- SmallShapes
INVARIANTS Good RoundTrip
PROPERTY Keeps
VIEW View
CHECK_DEADLOCK FALSE
