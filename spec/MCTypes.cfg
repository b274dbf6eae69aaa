INIT Init
NEXT Next
CONSTANTS Some = {"Int8", "Int16"}
INVARIANTS Order Collections Sound Symmetric Settled Associative
CHECK_DEADLOCK FALSE
