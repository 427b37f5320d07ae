SPECIFICATION Spec
INVARIANTS Order Emit
PROPERTIES Kept Begins
CHECK_DEADLOCK FALSE
