CHECK_DEADLOCK FALSE
SPECIFICATION MSpec
INVARIANTS SumsHeld LotsHeld InOrder Unbooked Running RolledUp Answerable Divided
