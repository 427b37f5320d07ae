INIT Init
NEXT Next
INVARIANTS Report
CHECK_DEADLOCK TRUE
