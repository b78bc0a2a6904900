---------------------------- MODULE LoaderTrace ----------------------------
(* Checks what the real server says of beanfiles against Loader.            *)
(* A case is [id, files, obs]; obs is [status, dirs, opts, plugins, errs,   *)
(* warns, same]: dirs are served directives, each [r, at, posts, ps] with r *)
(* the record and at the place its span resolves to.                        *)
EXTENDS Loader, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

VARIABLES cid, n, flags, fin
tvars == <<cid, n, flags, fin>>
Case == Cases[cid]
Obs == Case.obs
ItemOf(x) == files[x.f].items[x.i]

ALL == {"C14", "C15", "C16", "C17", "C28"}
Bad == \E f \in 1..Len(files) : \E i \in 1..Len(files[f].items) : files[f].items[i].kind = "bad"

\* places
PlaceOf(x) == [file |-> files[x.f].name, line |-> ItemOf(x).line, text |-> ItemOf(x).text]
Places == {PlaceOf(out[k]) : k \in 1..Len(out)}

\* content, but for tags and metadata
SameSeq(a, b, R(_, _)) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : R(a[k], b[k])
NumR(e, v) == LET x == Number(e) IN DSame(x, v)
Nums(es, vs) == SameSeq(es, vs, NumR)
CostR(c, o) == /\ Nums(c.per, o.per) /\ Nums(c.total, o.total) /\ c.cur = o.cur /\ c.date = o.date
               /\ c.label = o.label /\ c.merge = o.merge
PriceR(c, o) == Nums(c.per, o.per) /\ Nums(c.total, o.total) /\ c.cur = o.cur
PostR(p, o) ==
  /\ p.acc = o.acc /\ Nums(p.units, o.units) /\ p.cur = o.cur /\ p.flag = o.flag
  /\ SameSeq(p.cost, o.cost, CostR) /\ SameSeq(p.price, o.price, PriceR)
  /\ p.tags = o.tags /\ p.links = o.links /\ p.meta = o.meta
BodyOf(d) == CASE d.kind = "price" -> <<d.body[1], DStr(Number(d.units)), d.body[3]>>
               [] d.kind = "balance" -> <<d.acc, DStr(Number(d.units)), d.cur>> \o [k \in 1..Len(d.tol) |-> DStr(Number(d.tol[k]))]
               [] OTHER -> d.body
SameContent(d, r) ==
  /\ d.kind = r.kind /\ d.date = r.date /\ d.links = r.links
  /\ BodyOf(d) = r.body
  /\ d.flag = r.flag /\ d.payee = r.payee /\ d.narration = r.narration
  /\ SameSeq(d.ps, r.ps, PostR)
SamePosts(it, o) == Len(it.posts) = Len(o.posts) /\ \A k \in 1..Len(it.posts) :
  o.posts[k] = [file |-> o.at.file, line |-> it.posts[k].line, text |-> it.posts[k].text]
SameMarks(x, r) ==
  /\ {r.tags[k] : k \in 1..Len(r.tags)} = x.tags /\ Len(r.tags) = Cardinality(x.tags)
  /\ {r.meta[k] : k \in 1..Len(r.meta)} = x.meta /\ Len(r.meta) = Cardinality(x.meta)

OwnMarks(d, r) == /\ {d.tags[k] : k \in 1..Len(d.tags)} \subseteq {r.tags[k] : k \in 1..Len(r.tags)}
                  /\ {d.meta[k] : k \in 1..Len(d.meta)} \subseteq {r.meta[k] : k \in 1..Len(r.meta)}

CheckDir(x, o) ==
  IF o.at # PlaceOf(x)
  THEN IF o.at \in Places THEN {"C14", "C15"} ELSE {"C14"}
  ELSE (IF SameContent(ItemOf(x).d, o.r) /\ SamePosts(ItemOf(x), o) THEN {} ELSE {"C14"})
       \cup (IF SameMarks(x, o.r) THEN {}
             ELSE (IF x.pushed THEN {"C15"} ELSE {}) \cup (IF x.pushed /\ OwnMarks(ItemOf(x).d, o.r) THEN {} ELSE {"C14"}))

CheckOpts == IF {Obs.opts[k] : k \in 1..Len(Obs.opts)} = Options /\ Len(Obs.opts) = Cardinality(Options)
             THEN {} ELSE {"C16"}
CheckPlugins == IF Obs.plugins = plugins THEN {} ELSE {"C17"}

\* errors and warnings, in any order
Matches(e, o) == /\ e.at = o.at /\ e.rel = o.rel
                 /\ e.msg \in {"*", o.msg} /\ e.reason \in {"*", o.reason}
SameBag(es, os) ==
  /\ Len(es) = Len(os)
  /\ \A k \in 1..Len(es) :
       Cardinality({j \in 1..Len(es) : es[j] = es[k]}) = Cardinality({j \in 1..Len(os) : Matches(es[k], os[j])})
Lines(f, i) == {l \in files[f].items[i].line..(files[f].items[i].line + files[f].items[i].lines - 1) : TRUE}
\* a file which does not parse: at least the first such place in it is reported
BadReported(f) ==
  \A i \in 1..Len(files[f].items) :
    (files[f].items[i].kind = "bad" /\ \A j \in 1..(i - 1) : files[f].items[j].kind # "bad")
    => \E k \in 1..Len(Obs.errs) : Obs.errs[k].at.file = files[f].name /\ Obs.errs[k].at.line \in Lines(f, i)

CheckEnd ==
  IF ~Obs.same THEN {"C28"} ELSE
  IF Obs.status = "other" THEN ALL
  ELSE IF Bad
  THEN IF Obs.status = "err" /\ \A f \in 1..Len(files) : BadReported(f) THEN {} ELSE {"C28"}
  ELSE IF Accepted
  THEN IF Obs.status = "err" THEN ALL
       ELSE CheckOpts \cup CheckPlugins
            \cup (IF SameBag(warns, Obs.warns) THEN {} ELSE {"C28"})
            \cup (IF Len(Obs.dirs) = Len(out) THEN {} ELSE {"C14", "C15"})
  ELSE IF Obs.status = "ok" THEN {"C28", "C15"}
       ELSE IF SameBag(Errors, Obs.errs) THEN {} ELSE {"C28"}

TInit == /\ cid \in 1..Len(Cases)
         /\ n = 0 /\ flags = {} /\ fin = FALSE
         /\ Begin(Cases[cid].files)
Walk == ~Finished /\ (Step \/ EndFile) /\ UNCHANGED tvars
Expect == Sorted
Judge ==
  /\ Finished /\ ~fin
  /\ LET ok == Accepted /\ Obs.status = "ok" /\ ~Bad
         s == IF ok THEN Sorted ELSE <<>>
         m == IF Len(s) < Len(Obs.dirs) THEN Len(s) ELSE Len(Obs.dirs)
         v == CheckEnd \cup UNION {CheckDir(s[k], Obs.dirs[k]) : k \in 1..m}
     IN /\ flags' = v
        /\ PrintT(<<"RUN", Case.id, IF Bad THEN "bad" ELSE IF Accepted THEN "ok" ELSE "err",
                    IF ok THEN Len(s) ELSE Len(Errors), v>>)
  /\ fin' = TRUE /\ UNCHANGED <<cid, n, lvars>>
TNext == Walk \/ Judge
TSpec == TInit /\ [][TNext]_<<lvars, tvars>>
Holds == Prop \notin flags
=============================================================================
