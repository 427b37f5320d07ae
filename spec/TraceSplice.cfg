INIT Init
NEXT Next
INVARIANTS Refines Report
CHECK_DEADLOCK TRUE
