SPECIFICATION Spec
INVARIANTS Holds Emit
CHECK_DEADLOCK FALSE
