INIT Init
NEXT Next
CONSTANTS Some = {"Int16", "Uint16", "Float32"}
INVARIANTS Order Collections Sound Symmetric Settled Associative
CHECK_DEADLOCK FALSE
