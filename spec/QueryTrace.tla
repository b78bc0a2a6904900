----------------------------- MODULE QueryTrace -----------------------------
(* Checks answers of the application to queries against Query.              *)
(* A case is [id, dirs, opts, query, obs]; obs is [kind, val, cell, prints]:*)
(* the answer, the cell it was shown as, and whether it prints as what it   *)
(* is: whether reading what is printed gives the answer.                    *)
EXTENDS Query, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, verdict
tvars == <<cid, verdict>>
Case == Cases[cid]
Obs == Case.obs

TInit == /\ cid \in 1..Len(Cases) /\ verdict = ""
         /\ Begin(Cases[cid].dirs, Cases[cid].opts, Cases[cid].query)
Fits(a) == /\ Obs.kind = a.kind
           /\ "val" \in DOMAIN a => Obs.val = a.val /\ Obs.cell = Cell(a) /\ Obs.prints
\* of several possible answers, the one observed
Good == IF Answered THEN Fits(The(answer)) ELSE \E a \in Answers : Fits(a)
Judge ==
  /\ verdict = ""
  /\ Answered \/ (Open /\ FiltersOk /\ read = Len(Postings))
  /\ verdict' = IF Good THEN Obs.kind ELSE "BAD"
  /\ PrintT(<<"RUN", Case.id, verdict'>>)
  /\ UNCHANGED <<qvars, cid>>
TNext == \/ verdict = "" /\ (BadFilter \/ Skip \/ Accumulate \/ Unsupported \/ Enter) /\ UNCHANGED tvars
         \/ Judge
TSpec == TInit /\ [][TNext]_<<qvars, tvars>>
Holds == verdict # "BAD"
=============================================================================
