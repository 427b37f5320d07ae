SPECIFICATION Spec
INVARIANTS Accepted OnlyThat Refines Emit
CHECK_DEADLOCK FALSE
