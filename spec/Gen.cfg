SPECIFICATION Spec
INVARIANTS Types OneAction SameAsFunction Holds Emit
PROPERTY Progress
CHECK_DEADLOCK FALSE
