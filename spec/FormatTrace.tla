---------------------------- MODULE FormatTrace -----------------------------
(* Checks what the application prints of directives, and what it reads of   *)
(* that, against Format.                                                    *)
(* A case is [id, docs, dumps].  A doc is [dirs, text, read, back]: what is *)
(* printed of directives, and which directives are read of it, if it can be *)
(* read.  A dump is [has, there, dirs, text]: whether there are directives  *)
(* at some stage, and the file they are dumped to.                          *)
EXTENDS Format, Json, IOUtils, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, verdict
tvars == <<cid, verdict>>
Case == Cases[cid]

\* as read: in any order
Loose(x) == [x EXCEPT !.tags = Range(@), !.links = Range(@)]
LooseDct(d) == [Loose(d) EXCEPT !.curs = Range(@), !.ps = Each(@, Loose)]
Printed(x) == Fits(x.text, 1, AllPieces(x.dirs))
DocOk(x) == Printed(x) /\ x.read /\ Each(x.back, LooseDct) = Kept(x.dirs)
DumpOk(x) == x.has = x.there /\ (x.has => Printed(x))

\* one doc or dump after the other
Left == Len(Case.docs) + Len(Case.dumps) - done
TInit == /\ cid \in 1..Len(Cases) /\ verdict = ""
         /\ Begin(<<>>)
Take ==
  /\ verdict = "" /\ Left > 0
  /\ done' = done + 1
  /\ LET n == Len(Case.docs)
         ok == IF done < n THEN DocOk(Case.docs[done + 1]) ELSE DumpOk(Case.dumps[done + 1 - n])
     IN /\ verdict' = IF ok THEN "" ELSE "BAD"
        /\ IF ok THEN TRUE ELSE PrintT(<<"RUN", Case.id, "BAD">>)
  /\ UNCHANGED <<dirs, out, at, back, cid>>
Judge ==
  /\ verdict = "" /\ Left = 0
  /\ verdict' = "good"
  /\ PrintT(<<"RUN", Case.id, verdict'>>)
  /\ UNCHANGED <<fvars, cid>>
TSpec == TInit /\ [][Take \/ Judge]_<<fvars, tvars>>
Holds == verdict # "BAD"
=============================================================================
