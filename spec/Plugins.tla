------------------------------ MODULE Plugins -------------------------------
(* Loading a beanfile in the application: what the server says of it, the   *)
(* plugins it asks for, booking, and the errors which may end it anywhere.  *)
(*                                                                          *)
(* A plugin is a function on the stream of directives, for raw ones (before *)
(* booking), booked ones, or both.  Its behaviour here is a script: rules   *)
(* [n, kind, do], the first of which matches says what becomes of the n-th  *)
(* directive it is given (n = 0: of any, kind "any": of any kind).          *)
(* What the server answers is given: env.                                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES
  env,     \* parse, raws, book, title, name: what the server answers
  plugs,   \* the plugins the beanfile asks for: [name, fault, raw, booked, script]
  stage,   \* start, raw, book, booked, done
  pos,     \* how many directives have entered the plugins
  q,       \* q[k]: what waits to be given to the k-th plugin of this kind
  cnt,     \* how many it was given
  held,    \* what it holds back until the end
  closed,  \* how many were told of the end
  known,   \* objects which left a plugin, or entered
  oids,    \* how many objects there are
  out,     \* what left the last plugin
  beans,   \* raws, rawxf, booked, bookedxf: each <<>> or <<directives>>
  error    \* <<>> or <<[k, ...]>>
pvars == <<env, plugs, stage, pos, q, cnt, held, closed, known, oids, out, beans, error>>

Has(x) == Len(x) > 0
The(x) == x[1]
RECURSIVE Join(_, _)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(Tail(ss), sep)

(******************************* directives ********************************)
\* base: what it says; marks: metadata given by plugins; ps: its postings, each [base, span, spanp];
\* err: errors plugins found in it; span: where it was written; spanp: where the text of what plugins
\* made of it is; prov: which plugins; ok: whether it is a directive at all; oid: its identity
Dct(oid, kind, date, base, ps) ==
  [oid |-> oid, kind |-> kind, date |-> date, base |-> base, marks |-> {}, ps |-> ps, err |-> <<>>,
   span |-> <<>>, spanp |-> <<>>, prov |-> <<>>, ok |-> TRUE]
Pst(base) == [base |-> base, span |-> <<>>, spanp |-> <<>>]
NewEvent(oid, d, desc) == [Dct(oid, "event", d.date, "event " \o desc, <<>>) EXCEPT !.ok = d.ok]
NewTxn(oid, d, desc) == [Dct(oid, "txn", d.date, "txn " \o desc, <<Pst("verif+"), Pst("verif-")>>) EXCEPT !.ok = d.ok]

(********************************* plugins *********************************)
Kind == stage
Sel(p) == IF Kind = "raw" THEN p.raw ELSE p.booked
Mine == SelectSeq(plugs, LAMBDA p : Sel(p))
N == Len(Mine)
Short(p) == p.short
RuleFor(p, n, d) ==
  LET ks == {k \in 1..Len(p.script) : p.script[k].n \in {0, n} /\ p.script[k].kind \in {"any", d.kind}}
  IN IF ks = {} THEN "keep" ELSE p.script[CHOOSE k \in ks : \A j \in ks : k <= j].do

\* what the k-th plugin makes of its n-th directive: what it lets through, what it holds, whether it throws
Nothing == [pass |-> <<>>, hold |-> <<>>, throw |-> FALSE]
Let(ds) == [Nothing EXCEPT !.pass = ds]
DescOf(k, n) == Mine[k].short \o "/" \o ToString(n)
Act(k, n, d, o) ==
  LET p == Mine[k] a == RuleFor(p, n, d) desc == DescOf(k, n)
      edit(e) == Let(<<[e EXCEPT !.oid = o]>>)
  IN CASE a = "keep" -> Let(<<d>>)
       [] a = "drop" -> Nothing
       [] a = "mark" -> edit([d EXCEPT !.marks = @ \cup {desc}])
       [] a = "copy" -> edit(d)
       [] a = "before" -> Let(<<NewEvent(o, d, desc), d>>)
       [] a = "after" -> Let(<<d, NewTxn(o, d, desc)>>)
       [] a = "twice" -> Let(<<d, d>>)
       [] a = "err" -> edit([d EXCEPT !.err = Append(@, [plugin |-> p.ns, message |-> desc])])
       [] a = "newerr" -> Let(<<d, [NewEvent(o, d, desc) EXCEPT !.err = <<[plugin |-> p.ns, message |-> desc]>>]>>)
       [] a = "throw" -> [Nothing EXCEPT !.throw = TRUE]
       [] a = "bad" -> edit([d EXCEPT !.ok = FALSE, !.date = ""])
       [] a = "hold" -> [Nothing EXCEPT !.hold = <<d>>]
       [] a = "opt" -> Let(<<NewEvent(o, d, desc \o " " \o env.option), d>>)
       [] a = "rev" -> IF Len(d.ps) < 2 THEN Let(<<d>>) ELSE edit([d EXCEPT !.ps = Reverse(@)])
       [] a = "pop" -> IF d.ps = <<>> THEN Let(<<d>>) ELSE edit([d EXCEPT !.ps = Front(@)])

\* what leaves a plugin is marked as of that plugin, unless it is as it came, or in error and already
\* of a known place
Phase == IF Kind = "booked" THEN <<":booked">> ELSE <<>>
ProvBy(k, prov) == prov \o (IF ":booked" \in Range(prov) THEN <<>> ELSE Phase) \o <<Mine[k].name>>
Seen(d) == d.oid \in known \/ (Has(d.err) /\ (Has(d.span) \/ Has(d.prov)))
Tagged(k, d, o) == IF Seen(d) \/ k = 0 THEN d ELSE [d EXCEPT !.prov = ProvBy(k, @), !.oid = o]

(********************************** state **********************************)
Empty == [raws |-> <<>>, rawxf |-> <<>>, booked |-> <<>>, bookedxf |-> <<>>]
Begin(e, ps) ==
  /\ env = e /\ plugs = ps /\ stage = "start" /\ pos = 0 /\ q = <<>> /\ cnt = <<>> /\ held = <<>> /\ closed = 0
  /\ known = {} /\ oids = 0 /\ out = <<>> /\ beans = Empty /\ error = <<>>
flow == <<pos, q, cnt, held, closed, known, oids, out>>

Fail(e) == error' = <<e>> /\ stage' = "done"
Numbered(ds, from) == [k \in 1..Len(ds) |-> [ds[k] EXCEPT !.oid = from + k, !.marks = {}]]
Faulty == SelectSeq(plugs, LAMBDA p : p.fault # "")

(* start: the server may be unable to read the beanfile, and plugins may be *)
(* missing or unusable                                                      *)
Unreadable == /\ stage = "start" /\ Has(env.parse)
              /\ Fail([k |-> "parser"])
              /\ UNCHANGED <<env, plugs, flow, beans>>
Unusable == /\ stage = "start" /\ ~Has(env.parse) /\ Has(Faulty)
            /\ Fail([k |-> "plugins"])
            /\ UNCHANGED <<env, plugs, flow, beans>>

\* ds enter the plugins of this kind; if there are none, on to the next stage
Enter(kind, ds, next) ==
  LET ps == SelectSeq(plugs, LAMBDA p : IF kind = "raw" THEN p.raw ELSE p.booked)
  IN IF ps = <<>> THEN /\ stage' = next
                       /\ UNCHANGED <<pos, q, cnt, held, closed, known, out>>
     ELSE /\ stage' = kind /\ pos' = 0 /\ closed' = 0 /\ known' = {} /\ out' = <<>>
          /\ q' = [k \in 1..Len(ps) + 1 |-> <<>>]
          /\ cnt' = [k \in 1..Len(ps) |-> 0] /\ held' = [k \in 1..Len(ps) |-> <<>>]
Read == /\ stage = "start" /\ ~Has(env.parse) /\ ~Has(Faulty)
        /\ beans' = [beans EXCEPT !.raws = <<Numbered(env.raws, oids)>>]
        /\ oids' = oids + Len(env.raws)
        /\ Enter("raw", env.raws, "book")
        /\ UNCHANGED <<env, plugs, error>>

(* raw, booked: each directive goes through all plugins before the next.    *)
(* q[k] is on its way from the (k-1)-th plugin to the k-th                  *)
Running == stage \in {"raw", "booked"}
Source == IF Kind = "raw" THEN The(beans.raws) ELSE The(beans.booked)
Busy == {k \in 1..N + 1 : q[k] # <<>>}
Arriving == CHOOSE k \in Busy : \A j \in Busy : j <= k
Throw(what) == Fail([k |-> "exception", in |-> Kind, what |-> what]) /\ UNCHANGED flow
Step ==
  /\ Running /\ Busy # {}
  /\ LET k == Arriving
         d == Head(q[k])
         t == Tagged(k - 1, d, oids + 1)
         r == Act(k, cnt[k] + 1, t, oids + 2)
     IN IF ~Seen(d) /\ ~d.ok THEN Throw("Spec assertion failed")
        ELSE /\ known' = known \cup (IF Seen(d) THEN {} ELSE {t.oid})
             /\ oids' = oids + 2
             /\ UNCHANGED <<pos, closed>>
             /\ IF k = N + 1
                THEN /\ q' = [q EXCEPT ![k] = Tail(@)] /\ out' = Append(out, t)
                     /\ UNCHANGED <<cnt, held, stage, error>>
                ELSE /\ q' = [q EXCEPT ![k] = Tail(@), ![k + 1] = r.pass]
                     /\ cnt' = [cnt EXCEPT ![k] = @ + 1]
                     /\ held' = [held EXCEPT ![k] = @ \o r.hold]
                     /\ UNCHANGED out
                     /\ IF r.throw THEN Fail([k |-> "exception", in |-> Kind, what |-> "thrown by " \o DescOf(k, cnt[k] + 1)])
                        ELSE UNCHANGED <<stage, error>>
  /\ UNCHANGED <<env, plugs, beans>>
Feed == /\ Running /\ Busy = {} /\ pos < Len(Source)
        /\ pos' = pos + 1 /\ q' = [q EXCEPT ![1] = <<Source[pos + 1]>>]
        /\ UNCHANGED <<env, plugs, stage, cnt, held, closed, known, oids, out, beans, error>>
\* at the end, plugins are told in their order, and let go what they held
Close == /\ Running /\ Busy = {} /\ pos = Len(Source) /\ closed < N
         /\ closed' = closed + 1 /\ q' = [q EXCEPT ![closed + 2] = held[closed + 1]]
         /\ UNCHANGED <<env, plugs, stage, pos, cnt, held, known, oids, out, beans, error>>
\* the text of what plugins made is kept, as a source of its own for each directive and each posting
SourceName(d) == "Synthetic directive from " \o Join(d.prov, " ")
Written(d) == IF d.prov = <<>> THEN d
              ELSE [d EXCEPT !.spanp = <<SourceName(d)>>, !.ps = [k \in 1..Len(@) |-> [@[k] EXCEPT !.spanp = <<SourceName(d)>>]]]
Wrong(ds) == SelectSeq(ds, LAMBDA d : Has(d.err))
Finish == /\ Running /\ Busy = {} /\ pos = Len(Source) /\ closed = N
          /\ LET ds == [k \in 1..Len(out) |-> Written(out[k])]
             IN /\ beans' = IF Kind = "raw" THEN [beans EXCEPT !.rawxf = <<ds>>] ELSE [beans EXCEPT !.bookedxf = <<ds>>]
                /\ IF Wrong(ds) # <<>> THEN Fail([k |-> "directives", in |-> Kind])
                   ELSE stage' = (IF Kind = "raw" THEN "book" ELSE "done") /\ UNCHANGED error
          /\ UNCHANGED <<env, plugs, flow>>

(* book: by the server, of what the raw plugins made, or what was parsed;   *)
(* reply is [ok, dirs, reports, spanned, message], directives and postings of which  *)
(* know what they came from by its index (idx, from 0)                      *)
ToBook == IF Has(beans.rawxf) THEN The(beans.rawxf) ELSE The(beans.raws)
At(xs, k) == IF k < Len(xs) THEN <<xs[k + 1]>> ELSE <<>>
\* where it was written, and how it came about, is that of what was booked
Origin(x, from) == IF Has(from) THEN [x EXCEPT !.span = The(from).span, !.spanp = The(from).spanp] ELSE x
BookedDct(b, oid) ==
  LET raw == At(ToBook, b.idx)
      pst(p) == Origin(Pst(p.base), IF Has(p.idx) /\ Has(raw) THEN At(The(raw).ps, The(p.idx)) ELSE <<>>)
      d == Origin([Dct(oid, b.kind, b.date, b.base, [k \in 1..Len(b.ps) |-> pst(b.ps[k])]) EXCEPT !.marks = Range(b.marks)], raw)
  IN IF Has(raw) THEN [d EXCEPT !.prov = The(raw).prov] ELSE d
Book(reply) ==
  /\ stage = "book"
  /\ IF reply.ok
     THEN LET ds == [k \in 1..Len(reply.dirs) |-> BookedDct(reply.dirs[k], oids + k)]
          IN /\ beans' = [beans EXCEPT !.booked = <<ds>>] /\ oids' = oids + Len(ds)
             /\ Enter("booked", ds, "done")
             /\ UNCHANGED error
     ELSE /\ Fail([k |-> "booking", reports |-> reply.reports, spanned |-> reply.spanned, message |-> reply.message])
          /\ UNCHANGED <<flow, beans>>
  /\ UNCHANGED <<env, plugs>>
PNext == Unreadable \/ Unusable \/ Read \/ Step \/ Feed \/ Close \/ Finish
Done == stage = "done"

(******************************** outcome **********************************)
Final == IF Has(error) THEN <<>> ELSE IF Has(beans.bookedxf) THEN beans.bookedxf ELSE beans.booked
IsError(k) == Has(error) /\ The(error).k = k

(* what the user is told: reports of errors with their places               *)
Some(a, b) == IF Has(a) THEN a ELSE b
Name(d) == IF d.kind = "txn" THEN "transaction" ELSE d.kind
\* where an index of a report of booking points: the place where the user wrote it rather than the text of what a plugin made of it
Place(ix) ==
  LET d == At(ToBook, ix[1])
      p == IF Len(ix) > 1 /\ Has(d) THEN At(The(d).ps, ix[2]) ELSE <<>>
      dspan == IF Has(d) THEN Some(The(d).span, The(d).spanp) ELSE <<>>
      pspan == IF Has(p) THEN Some(The(p).span, The(p).spanp) ELSE <<>>
      modified == Has(d) /\ Has(The(d).prov) /\ (Has(The(d).span) \/ (Has(p) /\ Has(The(p).span)))
  IN [what |-> (IF Has(p) THEN "posting" ELSE Name(The(d))) \o (IF modified THEN ", modified by " \o Join(The(d).prov, " ") ELSE ""),
      span |-> Some(pspan, dspan),
      contexts |-> IF Has(p) THEN <<[what |-> Name(The(d)), span |-> dspan]>> ELSE <<>>]
BookReport(r) ==
  LET x == Place(r.idx)
  IN [message |-> "invalid " \o x.what, reason |-> r.reason, annotation |-> r.annotation, span |-> x.span, contexts |-> x.contexts,
      related |-> [k \in 1..Len(r.related) |-> [what |-> Place(r.related[k]).what, span |-> Place(r.related[k]).span]]]
RECURSIVE Concat(_)
Concat(xss) == IF xss = <<>> THEN <<>> ELSE xss[1] \o Concat(Tail(xss))
\* an error found by a plugin is shown in what the plugins made of the directive, and where it came from beside
DctReports(d) ==
  [k \in 1..Len(d.err) |->
     [message |-> d.err[k].plugin, reason |-> <<d.err[k].message>>, annotation |-> <<>>, span |-> Some(d.spanp, d.span), contexts |-> <<>>,
      related |-> IF Has(d.span) /\ Has(d.spanp) THEN <<[what |-> "source", span |-> d.span]>> ELSE <<>>]]
Result == IF The(error).in = "raw" THEN The(beans.rawxf) ELSE The(beans.bookedxf)
Reports ==
  CASE ~Has(error) -> <<>>
    [] IsError("parser") -> The(env.parse)
    [] IsError("directives") -> LET ds == Wrong(Result) IN Concat([k \in 1..Len(ds) |-> DctReports(ds[k])])
    [] IsError("booking") -> The(error).spanned \o [k \in 1..Len(The(error).reports) |-> BookReport(The(error).reports[k])]
    [] OTHER -> <<>>
CountRaw == IF Has(beans.raws) THEN Len(The(beans.raws)) ELSE 0
\* "REPORTS" is where the reports are, as the server lays them out
Shown == IF Has(Reports) THEN <<"REPORTS">> ELSE <<>>
Said ==
  <<"[limabean] " \o ToString(CountRaw) \o " directives loaded from " \o env.name>>
  \o CASE ~Has(error) -> <<"[limabean] " \o ToString(Len(The(Final))) \o " directives resulting from booking and running plugins">>
       [] IsError("plugins") -> [k \in 1..Len(Faulty) |-> "ERROR in plugin " \o Faulty[k].name \o " - " \o Faulty[k].fault]
       [] IsError("exception") -> <<"Exception thrown by " \o The(error).in \o " plugin, all " \o The(error).in \o " plugins ignored", The(error).what>>
       [] IsError("booking") -> <<"Booking failed">> \o The(error).message \o Shown
       [] OTHER -> Shown
=============================================================================
