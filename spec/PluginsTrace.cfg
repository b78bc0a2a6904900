SPECIFICATION TSpec
INVARIANT Holds
