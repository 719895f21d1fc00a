SPECIFICATION TSpec
CONSTANT Agrees <- SameOutcome
INVARIANT MemoIsFunction
CHECK_DEADLOCK FALSE
