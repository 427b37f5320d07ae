INIT Init
NEXT Next
INVARIANTS Report ScannerAgrees
CHECK_DEADLOCK TRUE
