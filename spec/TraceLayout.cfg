INIT Init
NEXT Next
INVARIANTS Report TypeOK
CHECK_DEADLOCK TRUE
