SPECIFICATION MSpec
INVARIANT OneReply IdEchoed Unreadable Examined FragmentsKept SideBySide LinesRight SameAnswer
PROPERTY SynOnlyGrows
CHECK_DEADLOCK FALSE
