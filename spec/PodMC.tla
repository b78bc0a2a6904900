------------------------------- MODULE PodMC -------------------------------
(* Every session of at most Depth requests of a small universe, of every    *)
(* kind of beanfile.  The invariants are what a client relies on; each      *)
(* complete session is printed, to be replayed into the real server.        *)
EXTENDS Pod, Json, IOUtils

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
Universe == Theme.universe
Depth == Theme.depth
Worlds == Theme.worlds

VARIABLES wi, hist, replies, made
mvars == <<wi, hist, replies, made>>
\* made: every synthetic fragment created, with its span

World(w) == [kind |-> w.kind, path |-> w.path,
             sources |-> [k \in 1..Len(w.sources) |-> Source(w.sources[k].name, w.sources[k].text)]]
MInit == \E k \in 1..Len(Worlds) :
           /\ wi = k /\ hist = <<>> /\ replies = <<>> /\ made = <<>>
           /\ Begin(World(Worlds[k]))

Reply(r) == [id |-> ReplyId(r), code |-> Code(r),
             spans |-> IF Creates(r) THEN Create(r.frags).spans ELSE <<>>,
             resolved |-> IF Code(r) = Okay /\ r.method = "parser.resolve-spans"
                          THEN [k \in 1..Len(r.spans) |-> Resolve(r.spans[k])] ELSE <<>>]

MNext == \E k \in 1..Len(Universe) : LET r == Universe[k] IN
  /\ Len(hist) < Depth
  /\ hist' = Append(hist, k)
  /\ replies' = Append(replies, Reply(r))
  /\ made' = IF Creates(r)
             THEN made \o [j \in 1..Len(r.frags) |-> [frag |-> r.frags[j], span |-> Create(r.frags).spans[j]]]
             ELSE made
  /\ Answer(r, ToString(Reply(r)), FALSE)
  /\ Len(hist') = Depth => PrintT(<<"B", wi, hist'>>)
  /\ UNCHANGED wi
MSpec == MInit /\ [][MNext]_<<pvars, mvars>>

Req(k) == Universe[hist[k]]

\* one reply to each request, with its id
OneReply == Len(replies) = Len(hist)
IdEchoed == \A k \in 1..Len(hist) :
              replies[k].code # ParseError => replies[k].id = Id(Req(k))
\* a beanfile which cannot be read answers nothing else, and one which can never says so
Unreadable == \A k \in 1..Len(hist) :
                /\ world.kind = "unreadable" => replies[k].code \in {IoError, ParseError, InvalidRequest}
                /\ world.kind # "unreadable" => replies[k].code # IoError
\* one which parses can always be examined
Examined == \A k \in 1..Len(hist) :
              (world.kind \in {"good", "faulty"} /\ replies[k].code = Reports) => Req(k).method = "book"
\* a fragment keeps its span, and its span keeps it, whatever is created later
FragmentsKept == \A k \in 1..Len(made) : LET m == made[k] IN
  /\ Resolve(m.span).file = m.frag.name
  /\ Resolve(m.span).text = Trim(m.frag.text)
  /\ m.span.end - m.span.start = Starts(m.frag.text, 0)[Len(m.frag.text) + 1]
\* fragments of a source are side by side, and sources of different names are different
SideBySide == \A j, k \in 1..Len(made) :
  /\ (made[j].frag.name = made[k].frag.name) <=> (made[j].span.src = made[k].span.src)
  /\ (j < k /\ made[j].span.src = made[k].span.src) => made[j].span.end <= made[k].span.start
  /\ made[j].span.src >= Len(world.sources)
\* what is resolved lies on the lines it says
LinesRight == \A k \in 1..Len(replies) : \A j \in 1..Len(replies[k].resolved) :
  LET x == replies[k].resolved[j] IN
  /\ x.first >= 1 /\ x.last - x.first = Count(x.text, Newline)
  /\ \E s \in {AllSources[i] : i \in 1..Len(AllSources)} :
       s.name = x.file /\ x.last <= 1 + Count(s.text, Newline)
\* the same request always has the same answer: memo is a function
SameAnswer == /\ \A m, n \in memo : m.key = n.key => m = n
              /\ \A j, k \in 1..Len(hist) :
                   (hist[j] = hist[k] /\ ~(\E i \in 1..Len(hist) : Req(i).method = "parser.create-synthetic-spans"))
                   => replies[j] = replies[k]
SynOnlyGrows == [][ Len(syn') >= Len(syn) /\ \A k \in 1..Len(syn) :
                      syn'[k].name = syn[k].name /\ IsPrefix(syn[k].text, syn'[k].text) ]_<<pvars, mvars>>
=============================================================================
