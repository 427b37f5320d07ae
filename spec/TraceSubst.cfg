INIT Init
NEXT Next
INVARIANTS Report Bounded AsFunction AsStated
CHECK_DEADLOCK TRUE
