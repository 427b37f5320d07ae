SPECIFICATION Spec
INVARIANTS RTypeOK SplitIndependent NeverPartial DecodingInverts Emit
CHECK_DEADLOCK FALSE
