SPECIFICATION TSpec
CONSTANT Bits = 160
CONSTANT Regular <- Firm
CHECK_DEADLOCK FALSE
