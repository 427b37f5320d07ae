SPECIFICATION Spec
INVARIANTS Refines InPlace Emit
CHECK_DEADLOCK FALSE
