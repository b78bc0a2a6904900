-------------------------------- MODULE Pod --------------------------------
(* The JSON-RPC server limabean-pod: a session over one beanfile.           *)
(*                                                                          *)
(* The server reads its beanfile once.  After that its only state is the    *)
(* synthetic sources which its client creates; every other request is       *)
(* answered from what was read, so the same request has the same answer     *)
(* whatever came before, in this session or another (memo records answers). *)
(* Texts are sequences of Unicode code points; spans count bytes of UTF-8.  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES
  world,   \* of the beanfile: kind, path, sources (as Source below)
  syn,     \* the synthetic sources, in the order of creation
  memo     \* answers seen so far: a set of [key, digest, logged]
pvars == <<world, syn, memo>>

(*************************** texts and spans *******************************)
Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
White == (9..13) \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
Newline == 10

\* where each character starts, and where the last one ends
Starts(t, from) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + Width(c)), <<from>>, t)
\* mixed: appended to when it held non-ASCII text (see LinesKnown)
Source(name, t) == [name |-> name, text |-> t, starts |-> Starts(t, 0), mixed |-> FALSE]
Ascii(t) == \A k \in 1..Len(t) : t[k] < 128
ByteLen(s) == s.starts[Len(s.starts)]
Extended(s, t) ==
  [s EXCEPT !.text = @ \o t, !.starts = @ \o Tail(Starts(t, ByteLen(s))),
            !.mixed = @ \/ ~Ascii(s.text)]

Count(t, c) == Cardinality({k \in 1..Len(t) : t[k] = c})
\* without trailing whitespace, unless there is nothing else
Trim(t) ==
  LET solid == {k \in 1..Len(t) : t[k] \notin White}
  IN IF solid = {} THEN t ELSE SubSeq(t, 1, CHOOSE k \in solid : \A j \in solid : j <= k)

AllSources == world.sources \o syn
HasSource(span) == span.src < Len(AllSources)
SourceOf(span) == IF HasSource(span) THEN AllSources[span.src + 1] ELSE AllSources[1]
IsSynthetic(span) == span.src >= Len(world.sources)

\* the characters of a source at these bytes, if it is possible
Slice(s, from, to) ==
  LET at(x) == {k \in 1..Len(s.starts) : s.starts[k] = x}
  IN IF from > to \/ at(from) = {} \/ at(to) = {} THEN <<>>
     ELSE << [before |-> SubSeq(s.text, 1, (CHOOSE k \in at(from) : TRUE) - 1),
              text   |-> SubSeq(s.text, CHOOSE k \in at(from) : TRUE, (CHOOSE k \in at(to) : TRUE) - 1)] >>

\* what a span is resolved to; a span which makes no sense is an empty one
Resolve(span) ==
  LET s == SourceOf(span)
      x == IF HasSource(span) THEN Slice(s, span.start, span.end) ELSE <<>>
      first == 1 + Count(x[1].before, Newline)
      t == Trim(x[1].text)
  IN IF x = <<>> THEN [file |-> s.name, first |-> 1, last |-> 1, text |-> <<>>]
     ELSE [file |-> s.name, first |-> first, last |-> first + Count(t, Newline), text |-> t]

\* two defects of the parser library, see known_findings.txt:
\* text which ends in a character of several bytes is resolved to nothing
TextKnown(span, r) == r.text # <<>> /\ Width(r.text[Len(r.text)]) > 1
\* lines are miscounted in a synthetic source appended to after non-ASCII text
LinesKnown(span) == HasSource(span) /\ SourceOf(span).mixed

Resolved(span, o) ==
  LET r == Resolve(span)
  IN /\ o.file = r.file
     /\ (o.first = r.first /\ o.last = r.last) \/ LinesKnown(span)
     /\ o.text = r.text \/ (TextKnown(span, r) /\ o.text = <<>>)

(*************************** synthetic sources *****************************)
\* fragments of one name are appended to one source
Find(ss, name) == {k \in 1..Len(ss) : ss[k].name = name}
Create1(acc, f) ==
  LET ks == Find(acc.syn, f.name)
      k == CHOOSE j \in ks : TRUE
      new == Source(f.name, f.text)
      old == acc.syn[k]
  IN IF ks = {}
     THEN [syn |-> Append(acc.syn, new),
           spans |-> Append(acc.spans, [src |-> Len(world.sources) + Len(acc.syn), start |-> 0, end |-> ByteLen(new)])]
     ELSE LET ext == Extended(old, f.text)
          IN [syn |-> [acc.syn EXCEPT ![k] = ext],
              spans |-> Append(acc.spans, [src |-> Len(world.sources) + k - 1, start |-> ByteLen(old), end |-> ByteLen(ext)])]
Create(frags) == FoldLeft(Create1, [syn |-> syn, spans |-> <<>>], frags)

(*************************** requests and replies **************************)
\* A request: [json, id, ver, method, params, spans, frags, reports, ok, key]
\*   json     whether the line is one JSON object without repeated keys
\*   id       [k, v]: k in {"none", "null", "str", "num", "bad"}
\*   ver      "2.0", "other" or "bad" (missing, or not a string)
\*   params   "none", "null", "list" or "bad"; spans, frags, reports: the list
\*   ok       of a book request with parameters: whether they can be booked
\*   key      identifies method and parameters
NoParams == {"status", "parser.plugins", "parser.directives", "parser.options"}
ListParams == {"parser.format-errors", "parser.format-warnings", "parser.resolve-spans",
               "parser.create-synthetic-spans"}
Methods == NoParams \cup ListParams \cup {"book"}
NeedParsed == {"parser.plugins", "parser.directives", "parser.options", "book"}

Null == [k |-> "null", v |-> ""]
Malformed(r) ==
  \/ ~r.json \/ r.id.k = "bad" \/ r.ver = "bad" \/ r.method \notin Methods
  \/ r.method \in ListParams /\ r.params # "list"
  \/ r.method = "book" /\ r.params = "bad"
Id(r) == IF r.id.k = "none" THEN Null ELSE r.id

IoError == 1
Reports == 2
IndexedReports == 3
ParseError == -32700
InvalidRequest == -32600
Okay == 0        \* stands for a result

\* the code of the reply, or Okay
Code(r) ==
  CASE Malformed(r) -> ParseError
    [] r.ver # "2.0" -> InvalidRequest
    [] world.kind = "unreadable" -> IoError
    [] world.kind = "broken" /\ r.method \in NeedParsed -> Reports
    [] r.method = "book" /\ r.params = "list" -> IF r.ok THEN Okay ELSE IndexedReports
    [] r.method = "book" /\ world.kind = "faulty" -> Reports
    [] OTHER -> Okay
ReplyId(r) == IF Malformed(r) THEN Null ELSE Id(r)

\* formatting several reports is formatting each, with an empty line between;
\* an annotation follows its report.  one(kind, key) is how one is formatted
Formatted(one(_), reports) ==
  FoldLeft(LAMBDA acc, p : (IF acc.n = 0 THEN [n |-> 1, t |-> p] ELSE [n |-> 1, t |-> acc.t \o "\n" \o p]),
           [n |-> 0, t |-> ""],
           [k \in 1..Len(reports) |-> one(reports[k]) \o (IF reports[k].ann = <<>> THEN "" ELSE reports[k].ann[1] \o "\n")]).t

(*************************** behaviour *************************************)
\* what an answer may depend on, besides the beanfile
UsesSyn(r) == \/ r.method = "parser.create-synthetic-spans"
              \/ \E k \in 1..Len(r.spans) : IsSynthetic(r.spans[k])
Key(r) == <<r.key, IF UsesSyn(r) THEN [k \in 1..Len(syn) |-> <<syn[k].name, syn[k].text>>] ELSE <<>> >>
\* answers to the same request seen before
Seen(r) == {m \in memo : m.key = Key(r)}

Begin(w) == world = w /\ syn = <<>> /\ memo = {}
\* another process for the same beanfile
Restart == syn' = <<>> /\ UNCHANGED <<world, memo>>

Creates(r) == Code(r) = Okay /\ r.method = "parser.create-synthetic-spans"
\* the server answers r; what it says has this digest
Answer(r, digest, logged) ==
  /\ syn' = IF Creates(r) THEN Create(r.frags).syn ELSE syn
  /\ memo' = IF Seen(r) # {} THEN memo ELSE memo \cup {[key |-> Key(r), digest |-> digest, logged |-> logged]}
  /\ UNCHANGED world
=============================================================================
