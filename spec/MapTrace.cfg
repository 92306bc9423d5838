SPECIFICATION Spec
INVARIANT Inv
POSTCONDITION Report
CHECK_DEADLOCK FALSE
