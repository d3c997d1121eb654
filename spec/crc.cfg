INIT Init
NEXT Next
INVARIANT Report
INVARIANT Linear
INVARIANT Consistent
CHECK_DEADLOCK FALSE
