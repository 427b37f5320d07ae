SPECIFICATION Spec
INVARIANTS Ok Emit
CHECK_DEADLOCK TRUE
