SPECIFICATION TSpec
CONSTANT Bits = 160
CHECK_DEADLOCK FALSE
