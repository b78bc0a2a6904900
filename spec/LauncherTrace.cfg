SPECIFICATION TSpec
INVARIANT Holds
CHECK_DEADLOCK FALSE
