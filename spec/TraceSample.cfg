SPECIFICATION TSpec
CONSTANT Bits = 100
CHECK_DEADLOCK FALSE
