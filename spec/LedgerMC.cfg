SPECIFICATION MSpec
INVARIANT TxnsBalance PadsBalance Complete SplitsAddUp Disjoint OnceOnly UsedWhileOpen Conserved BalancesHold LotsConserved InOrder Accounted Ordered Twice Verbatim WithinInput
PROPERTY Isolated OnlyGrows
CHECK_DEADLOCK FALSE
