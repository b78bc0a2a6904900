SPECIFICATION MSpec
INVARIANTS Status RefusedBefore Asked InOrder FailuresTold AllDone BeanfileErrors
CHECK_DEADLOCK FALSE
