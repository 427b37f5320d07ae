SPECIFICATION Spec
INVARIANTS Composes Passes Lonely Types Emit
CHECK_DEADLOCK FALSE
