---------------------------- MODULE PluginsTrace ----------------------------
(* Checks what the application makes of beanfiles and plugins, and what it  *)
(* tells of them, against Plugins.                                          *)
(* A case is [id, env, plugs, book, obs]: what the server answered, the     *)
(* plugins the beanfile asks for, what it booked, and what is observed: raws,*)
(* rawxf, booked, bookedxf (each of them <<>> if there are none), final,    *)
(* sent (what the server was asked to book), asked (reports it was asked to *)
(* format) and said.                                                        *)
EXTENDS Plugins, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES cid, verdict
tvars == <<cid, verdict>>
Case == Cases[cid]
Obs == Case.obs

\* what the user relies on is told by property: C29, directives; C33, errors
Prop == IOEnv.PROP
SameSeq(a, b, R(_, _)) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : R(a[k], b[k])
SamePst(p, o) == p.base = o.base /\ p.span = o.span /\ p.spanp = o.spanp
Content(d, o) == /\ d.kind = o.kind /\ d.date = o.date /\ d.base = o.base /\ d.err = o.err
                 /\ d.marks = Range(o.marks) /\ Cardinality(d.marks) = Len(o.marks)
                 /\ SameSeq(d.ps, o.ps, LAMBDA p, x : p.base = x.base)
Placed(d, o) == d.span = o.span /\ d.spanp = o.spanp /\ d.prov = o.prov /\ SameSeq(d.ps, o.ps, SamePst)
Same(d, o) == Content(d, o) /\ Placed(d, o)
SameOpt(x, o) == SameSeq(x, o, LAMBDA a, b : SameSeq(a, b, Same))
ReachedBook == Has(beans.booked) \/ IsError("booking")
Directives ==
  /\ SameOpt(beans.raws, Obs.raws) /\ SameOpt(beans.rawxf, Obs.rawxf)
  /\ SameOpt(beans.booked, Obs.booked) /\ SameOpt(beans.bookedxf, Obs.bookedxf)
  /\ SameOpt(Final, Obs.final)
  /\ Len(Obs.sent) = IF ReachedBook THEN 1 ELSE 0
  \* told to book what the plugins made; without them, maybe told nothing
  /\ \A k \in 1..Len(Obs.sent) : IF Has(Obs.sent[k]) THEN SameSeq(ToBook, The(Obs.sent[k]), Content) ELSE ~Has(beans.rawxf)
Errors ==
  /\ Obs.failed = Has(error)
  /\ Obs.asked = IF Has(Reports) THEN <<Reports>> ELSE <<>>
  /\ Obs.said = Said
Right == /\ Obs.fault = "" 
         /\ "C29" = Prop => Directives
         /\ "C33" = Prop => Errors

TInit == /\ cid \in 1..Len(Cases) /\ verdict = ""
         /\ Begin(Cases[cid].env, Cases[cid].plugs)
Judge == /\ verdict = "" /\ Done
         /\ verdict' = IF Right THEN (IF Has(error) THEN The(error).k ELSE "fine") ELSE "BAD"
         /\ PrintT(<<"RUN", Case.id, verdict'>>)
         /\ UNCHANGED <<pvars, cid>>
TNext == \/ PNext /\ UNCHANGED tvars
         \/ Has(Case.book) /\ Book(The(Case.book)) /\ UNCHANGED tvars
         \/ stage = "book" /\ ~Has(Case.book) /\ verdict = "" /\ verdict' = "BAD" /\ PrintT(<<"RUN", Case.id, verdict'>>) /\ UNCHANGED <<pvars, cid>>
         \/ Judge
TSpec == TInit /\ [][TNext]_<<pvars, tvars>>
Holds == verdict # "BAD"
=============================================================================
