INIT Init
NEXT Next
INVARIANTS Report SameGlobals
CHECK_DEADLOCK TRUE
