INIT Init
NEXT TNext
INVARIANTS Report SplitIndependent NeverPartial
CHECK_DEADLOCK TRUE
