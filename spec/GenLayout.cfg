SPECIFICATION Spec
INVARIANTS Canonical Holds Emit
CHECK_DEADLOCK FALSE
