------------------------------ MODULE AppTrace ------------------------------
(* Checks runs of the application against App.  A case is [id, world, obs]; *)
(* obs is [out, err, code], lines printed, and the exit status.             *)
EXTENDS App, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, verdict
tvars == <<cid, verdict>>
Case == Cases[cid]

\* a line nobody specifies is none of those which are
Known(l) == \E p \in {"[limabean] ", "limabean: ", "Failed to load ", "Exception: ", "superfluous arguments: "} : Starts(l, p)
RECURSIVE Fits(_, _, _, _)
Fits(ls, i, es, j) ==
  IF j > Len(es) THEN i > Len(ls)
  ELSE CASE es[j].t = "is" -> i <= Len(ls) /\ ls[i] = es[j].s /\ Fits(ls, i + 1, es, j + 1)
         [] es[j].t = "from" -> i <= Len(ls) /\ Starts(ls[i], es[j].s) /\ Fits(ls, i + 1, es, j + 1)
         [] OTHER -> LET n == IF \E k \in i..Len(ls) : Known(ls[k]) THEN (CHOOSE k \in i..Len(ls) : Known(ls[k]) /\ \A m \in i..k - 1 : ~Known(ls[m])) ELSE Len(ls) + 1
                     IN Fits(ls, n, es, j + 1)
Agrees == /\ Case.obs.code = code
          /\ Case.obs.out = out
          /\ Fits(Case.obs.err, 1, err, 1)

TInit == /\ cid \in 1..Len(Cases) /\ verdict = ""
         /\ Begin(Case.world)
Judge == /\ Ended /\ verdict = ""
         /\ verdict' = IF Agrees THEN "good" ELSE "BAD"
         /\ PrintT(<<"RUN", Case.id, verdict'>>)
         /\ IF Agrees THEN TRUE ELSE PrintT(<<"EXPECTED", Case.id, ToJson([out |-> out, err |-> err, code |-> code])>>)
         /\ UNCHANGED <<avars, cid>>
TSpec == TInit /\ [][(ANext /\ UNCHANGED tvars) \/ Judge]_<<avars, tvars>>
Holds == verdict # "BAD"
=============================================================================
