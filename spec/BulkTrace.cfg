SPECIFICATION Spec
INVARIANT TypeOK
POSTCONDITION Report
CHECK_DEADLOCK FALSE
