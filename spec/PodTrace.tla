------------------------------ MODULE PodTrace ------------------------------
(* Checks recorded sessions of the real server against Pod.                 *)
(*                                                                          *)
(* A case is one beanfile and sessions with it: [world, sessions], each     *)
(* session [logged, reqs, obs, exit, extra, log].  obs[k] is what was read  *)
(* as the k-th line: [shape, id, code, digest, resolved, spans, text, says]. *)
EXTENDS Pod, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

VARIABLES cid, si, i, fmt, flags, fin
tvars == <<cid, si, i, fmt, flags, fin>>
\* fmt: how single reports are formatted: a set of [kind, key, text]

Case == Cases[cid]
Session == Case.sessions[si]
Req == Session.reqs[i]
World(w) == [kind |-> w.kind, path |-> w.path,
             sources |-> [k \in 1..Len(w.sources) |-> Source(w.sources[k].name, w.sources[k].text)]]

\* the properties which an answer to this method is about
About(r) == CASE r.method = "parser.resolve-spans" ->
                   {"C18"} \cup (IF \E k \in 1..Len(r.spans) : IsSynthetic(r.spans[k]) THEN {"C19"} ELSE {})
              [] r.method = "parser.create-synthetic-spans" -> {"C19"}
              [] r.method \in {"parser.format-errors", "parser.format-warnings"} -> {"C23"}
              [] r.method = "parser.plugins" -> {"C17"}
              [] r.method = "parser.options" -> {"C16"}
              [] r.method = "parser.directives" -> {"C14"}
              [] OTHER -> {}

\* errors of the beanfile rather than of the protocol
FileCodes == {Okay, IoError, Reports, IndexedReports}
CheckCode(r, o) ==
  IF o.code = Code(r) THEN {}
  ELSE IF Code(r) \notin FileCodes \/ o.code \notin FileCodes
       THEN {"C20"} \cup (IF Code(r) \in FileCodes THEN {"C21"} \cup About(r) ELSE {})
       ELSE {"C21"} \cup About(r)

CheckMemo(r, o) ==
  LET bad == {m \in Seen(r) : m.digest # o.digest}
  IN (IF bad # {} THEN {"C22"} ELSE {})
     \cup (IF \E m \in bad : m.logged # Session.logged THEN {"C24"} ELSE {})

CheckResolve(r, o) ==
  IF Code(r) # Okay \/ r.method # "parser.resolve-spans" THEN {}
  ELSE IF Len(o.resolved) # Len(r.spans) THEN About(r)
  ELSE UNION {IF Resolved(r.spans[k], o.resolved[k]) THEN {}
              ELSE IF IsSynthetic(r.spans[k]) /\ HasSource(r.spans[k]) THEN {"C19"} ELSE {"C18"} : k \in 1..Len(r.spans)}

CheckCreate(r, o) ==
  IF Creates(r) /\ o.spans # Create(r.frags).spans THEN {"C19"} ELSE {}

\* formatting.  A single report shows its message, every label, and where each
\* of its spans begins: o.rows are the lines of source shown, o.at the place
\* given first, o.says whether message, labels and kind are there.
LineOf(s, n) ==
  LET nl == {k \in 1..Len(s.text) : s.text[k] = Newline}
      from == IF n = 1 THEN 1 ELSE 1 + (CHOOSE k \in nl : Cardinality({j \in nl : j <= k}) = n - 1)
      to == LET later == {k \in nl : k >= from} IN IF later = {} THEN Len(s.text) ELSE (CHOOSE k \in later : \A j \in later : k <= j) - 1
  IN SubSeq(s.text, from, to)
Bare(t) == LET solid == {k \in 1..Len(t) : t[k] \notin White}
           IN IF solid = {} THEN <<>>
              ELSE SubSeq(t, CHOOSE k \in solid : \A j \in solid : k <= j, CHOOSE k \in solid : \A j \in solid : j <= k)
Shown(span, o) ==
  LinesKnown(span) \/
  LET n == Resolve(span).first
  IN \E k \in 1..Len(o.rows) : o.rows[k].line = n /\ o.rows[k].text = Bare(LineOf(SourceOf(span), n))
Displays(x, o) ==
  /\ o.says
  /\ LinesKnown(x.spans[1]) \/ (o.at.file = SourceOf(x.spans[1]).name /\ o.at.line = Resolve(x.spans[1]).first)
  /\ \A k \in 1..Len(x.spans) : Shown(x.spans[k], o)

\* single reports are remembered, several compared with them
One(kind, key) == {f \in fmt : f.kind = kind /\ f.key = key}
IsFormat(r) == Code(r) = Okay /\ r.method \in {"parser.format-errors", "parser.format-warnings"}
Single(r) == Len(r.reports) = 1 /\ r.reports[1].ann = <<>>
CheckFormat(r, o) ==
  IF ~IsFormat(r) THEN {}
  ELSE LET known == \A k \in 1..Len(r.reports) : One(r.method, r.reports[k].key) # {}
           one(x) == (CHOOSE f \in One(r.method, x.key) : TRUE).text
       IN (IF known /\ o.text # Formatted(one, r.reports) THEN {"C23"} ELSE {})
          \cup (IF Len(r.reports) = 1 /\ ~Displays(r.reports[1], o) THEN {"C23"} ELSE {})
Learn(r, o) == IF IsFormat(r) /\ Single(r) /\ One(r.method, r.reports[1].key) = {}
               THEN fmt \cup {[kind |-> r.method, key |-> r.reports[1].key, text |-> o.text]}
               ELSE fmt

\* says: what an error says beside its code is as it should be
Check(r, o) ==
  (IF ~o.shape THEN {"C20"} ELSE {})
  \cup (IF o.id # ReplyId(r) THEN {"C20"} ELSE {})
  \cup CheckCode(r, o)
  \cup (IF o.code = Code(r)
        THEN CheckMemo(r, o) \cup CheckResolve(r, o) \cup CheckCreate(r, o) \cup CheckFormat(r, o)
             \cup (IF ~o.says /\ o.code \in {IoError, Reports, IndexedReports} THEN {"C21"} ELSE {})
        ELSE {})
Logged(fs) == IF Session.logged /\ fs # {} THEN fs \cup {"C24"} ELSE fs

Observed == i <= Len(Session.obs)
\* no answer at all
Missing(r) == {"C20"} \cup (IF Malformed(r) THEN {} ELSE {"C21"} \cup About(r) \cup (IF r.method = "book" THEN {"C09"} ELSE {}))

CheckEnd ==
  (IF Session.exit # "0" \/ Session.extra THEN {"C20"} ELSE {})
  \cup (IF Session.log THEN {} ELSE {"C24"})

TInit == /\ cid \in 1..Len(Cases)
         /\ si = 1 /\ i = 1 /\ fmt = {} /\ flags = {} /\ fin = FALSE
         /\ Begin(World(Case.world))

Step1 == /\ ~fin /\ i <= Len(Session.reqs)
         /\ IF Observed
            THEN LET o == Session.obs[i]
                     v == Logged(Check(Req, o))
                 IN /\ flags' = flags \cup v
                    /\ v # {} => PrintT(<<"BAD", Case.id, si, i, v>>)
                    /\ fmt' = Learn(Req, o)
                    /\ i' = i + 1
                    /\ Answer(Req, o.digest, Session.logged)
            ELSE LET v == Logged(Missing(Req))
                 IN /\ flags' = flags \cup v
                    /\ PrintT(<<"BAD", Case.id, si, i, v>>)
                    /\ i' = Len(Session.reqs) + 1
                    /\ UNCHANGED <<fmt, pvars>>
         /\ UNCHANGED <<cid, si, fin>>
EndSession ==
  /\ ~fin /\ i > Len(Session.reqs)
  /\ LET v == Logged(CheckEnd) IN
       /\ flags' = flags \cup v
       /\ v # {} => PrintT(<<"BAD", Case.id, si, 0, v>>)
  /\ UNCHANGED <<cid, fmt>>
  /\ IF si < Len(Case.sessions)
     THEN si' = si + 1 /\ i' = 1 /\ fin' = FALSE /\ Restart
     ELSE fin' = TRUE /\ UNCHANGED <<si, i, pvars>>
TNext == Step1 \/ EndSession
TSpec == TInit /\ [][TNext]_<<pvars, tvars>>
Holds == Prop \notin flags
=============================================================================
