SPECIFICATION TSpec
CONSTANT Agrees <- Tolerable
INVARIANT Allowed
PROPERTY Recorded
CHECK_DEADLOCK FALSE
