CHECK_DEADLOCK FALSE
SPECIFICATION TSpec
INVARIANT Holds
