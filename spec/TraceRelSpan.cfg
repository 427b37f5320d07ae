INIT Init
NEXT Next
INVARIANTS Report AsDeclared Monotone
CHECK_DEADLOCK TRUE
