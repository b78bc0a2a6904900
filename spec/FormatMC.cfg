CHECK_DEADLOCK FALSE
SPECIFICATION MSpec
INVARIANTS ReadsBack ReadInOrder Stable
