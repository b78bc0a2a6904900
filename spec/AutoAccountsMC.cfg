SPECIFICATION MSpec
INVARIANTS AllOpened Needed Passed
CHECK_DEADLOCK FALSE
