-------------------------- MODULE AutoAccountsTrace -------------------------
(* Checks what the plugin makes of the directives of beanfiles against      *)
(* AutoAccounts.  A case is [id, order, given, made].                       *)
EXTENDS AutoAccounts, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, verdict
Case == Cases[cid]
tvars == <<cid, verdict>>
TInit == /\ cid \in 1..Len(Cases) /\ verdict = ""
         /\ Begin(Case.given, Case.order)
Judge == /\ todo = <<>> /\ verdict = ""
         /\ verdict' = IF out = Case.made THEN "good" ELSE "BAD"
         /\ PrintT(<<"RUN", Case.id, verdict'>>)
         /\ UNCHANGED <<aavars, cid>>
TSpec == TInit /\ [][(AANext /\ UNCHANGED tvars) \/ Judge]_<<aavars, tvars>>
Holds == verdict # "BAD"
=============================================================================
