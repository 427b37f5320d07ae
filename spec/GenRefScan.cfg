SPECIFICATION Spec
INVARIANTS ScannerAgrees RulesHold Emit
CHECK_DEADLOCK TRUE
