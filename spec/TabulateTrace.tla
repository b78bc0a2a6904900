--------------------------- MODULE TabulateTrace ---------------------------
(* Checks what limabean-pod tabulate printed against Tabulate.              *)
(* A case is [id, bad, esc, cell, obs]; bad: the input is not a cell; esc:  *)
(* a gutter has an escape sequence, which is refused (a known finding).     *)
(* obs is [exit, lines, err]: what it printed by line; err: what it said on *)
(* stderr: none, reason or other.                                           *)
EXTENDS Tabulate, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, ran, verdict, other
tvars == <<cid, ran, verdict, other>>
Case == Cases[cid]
Obs == Case.obs

TInit == /\ cid \in 1..Len(Cases)
         /\ ran = "intended" /\ verdict = "" /\ other = <<>>
         /\ Begin(IF Cases[cid].bad THEN Empty ELSE Cases[cid].cell, FALSE)
Good(ls) == Obs.exit = 0 /\ Obs.lines = ls /\ Obs.err = "none"
Refused == Obs.exit = 1 /\ Obs.lines = <<>> /\ Obs.err = "reason"
\* first as it is intended, and if that is not what was observed as the library does it
Again == /\ Ended /\ ran = "intended" /\ verdict = "" /\ ~Case.bad /\ ~Good(Printed)
         /\ ran' = "library" /\ other' = Printed
         /\ lib' = TRUE /\ grid' = Grid(cell, TRUE) /\ rest' = cell /\ lines' = <<>> /\ marks' = {}
         /\ UNCHANGED <<cell, cid, verdict>>
Judge ==
  /\ Ended /\ verdict = ""
  /\ (Case.bad \/ Good(Printed) \/ ran = "library") = TRUE
  /\ verdict' = IF Case.bad THEN IF Refused THEN "refused" ELSE "BAD"
                ELSE IF Case.esc /\ Refused THEN "known"
                ELSE IF ran = "intended" THEN "table"
                ELSE IF Fails /\ Obs.exit \notin {0, 1} THEN "known"
                ELSE IF ~Fails /\ Good(Printed) THEN "known"
                ELSE "BAD"
  /\ PrintT(<<"RUN", Case.id, verdict'>>)
  /\ UNCHANGED <<tabvars, cid, ran, other>>
TNext == (PrintLine /\ UNCHANGED tvars) \/ Again \/ Judge
TSpec == TInit /\ [][TNext]_<<tabvars, tvars>>
Holds == verdict # "BAD"
=============================================================================
