INIT Init
NEXT Next
CONSTRAINT Bound
POSTCONDITION Report
