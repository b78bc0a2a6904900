--------------------------- MODULE AutoAccountsMC ---------------------------
(* Exhaustive exploration of AutoAccounts: every ledger of up to            *)
(* Theme.depth of Theme.universe.                                           *)
EXTENDS AutoAccounts, Json, IOUtils, TLC

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
VARIABLES pick
U == Theme.universe
Given == [i \in 1..Len(pick) |-> U[pick[i]]]
MInit == /\ pick \in UNION {[1..n -> 1..Len(U)] : n \in 1..Theme.depth}
         /\ Begin(Given, Theme.order)
MNext == AANext /\ UNCHANGED pick /\ (todo' = <<>> => PrintT(<<"B", ToJson(pick)>>))
MSpec == MInit /\ [][MNext]_<<aavars, pick>>
Passed == PassedOn(Given)
=============================================================================
