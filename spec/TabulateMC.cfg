SPECIFICATION MSpec
INVARIANTS Once Apart Even Ordered Aligned
CHECK_DEADLOCK FALSE
