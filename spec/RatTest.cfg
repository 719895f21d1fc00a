INIT Init
NEXT Next
INVARIANTS SameAsDefinition Axioms Literals
CHECK_DEADLOCK FALSE
