---------------------------- MODULE LedgerTrace ----------------------------
(* Checks what the real server answered to book requests against Ledger.    *)
(*                                                                          *)
(* Each case is one or more runs, each [mode, dirs, opts, obs]: the         *)
(* directives and options given to the server and the answer observed.      *)
(* mode "file": the directives come from a beancount file, in the order     *)
(* written there; mode "params": they were sent with the request.           *)
(* The case is stepped through Ledger, and then what was observed is        *)
(* compared with the outcome: flags is the set of properties refuted.       *)
EXTENDS Ledger, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP

VARIABLES cid, run, todo, flags, fin
tvars == <<cid, run, todo, flags, fin>>

Runs == Cases[cid].runs
Order(r) == IF r.mode = "file" THEN FileOrder(r.dirs) ELSE r.dirs

(************************* which property an error is about ****************)
LedgerProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11"}
Lifecycle == {"account already opened", "account was closed", "account was already closed",
              "account not open"}
Pads == {"unused, second pad encountered", "unused, no balance adjustment required",
         "unused, no balance directive"}
Lots == {"not enough lots to reduce", "no position matches", "ambiguous matches",
         "multiple currencies in cost spec matches against inventory"}
Elisions == {"cannot infer anything", "cannot infer units", "cannot infer currency",
             "cannot infer price per-unit", "cannot infer price currency", "cannot infer price",
             "ambiguous auto-post", "too many missing numbers for interpolation",
             "can't determine currency for balancing transaction"}
MsgProps(m) ==
  CASE m.cls = "unbalanced" -> {"C01"}
    [] m.cls = "multi" -> {"C02"}
    [] m.cls = "balance" -> {"C05"}
    [] m.text \in Lifecycle -> {"C03"}
    [] m.text = "currency incompatible with account" -> {"C04"}
    [] m.text \in Pads -> {"C06"}
    [] m.text \in Lots -> {"C07"}
    [] m.text \in Elisions -> {"C02"}
    [] OTHER -> {}
KindProps(k) == CASE k = "pad" -> {"C06"} [] k = "balance" -> {"C05"}
                  [] k \in {"open", "close"} -> {"C03"} [] OTHER -> {}

(************************* errors ******************************************)
SameNums(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : DEq(a[k], b[k])
SameMsg(m, o) == /\ m.cls = o.cls /\ m.text = o.text /\ m.at = o.at /\ m.curs = o.curs
                 /\ (m.cls # "balance" => SameNums(m.nums, o.nums))
SameRow(a, b) == /\ a.date = b.date /\ a.acc = b.acc /\ a.desc = b.desc
                 /\ DEq(a.units, b.units) /\ DEq(a.total, b.total)
SameRows(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : SameRow(a[k], b[k])
Name(k) == IF k = "txn" THEN "transaction" ELSE k

\* the properties which an error for directive i, expected or not, is about
About(ds, msgs, i) ==
  UNION {MsgProps(m) : m \in msgs}
  \cup (IF i[1] + 1 \in 1..Len(ds) THEN KindProps(ds[i[1] + 1].kind) ELSE {})

\* e expected, o observed, both errors with the same message
Located(mode, ds, e, o) ==
  LET name(i) == IF Len(i) = 2 THEN "posting" ELSE Name(ds[i[1] + 1].kind)
  IN /\ o.idx = e.idx
     /\ o.rel = e.rel
     /\ mode = "file" =>
        /\ o.head = "invalid " \o name(e.idx)
        /\ o.rlab = [k \in 1..Len(e.rel) |-> name(e.rel[k])]
        /\ o.ctx = IF Len(e.idx) = 2 THEN <<[lab |-> Name(ds[e.idx[1] + 1].kind), idx |-> <<e.idx[1]>>]>> ELSE <<>>
Matches(e, o) == \E m \in e.any : SameMsg(m, o.msg)
Details(mode, ds, e, o) ==
  LET m == CHOOSE m \in e.any : SameMsg(m, o.msg)
  IN (IF Located(mode, ds, e, o) THEN {} ELSE {"C10"})
     \cup (IF o.idx = e.idx THEN {} ELSE About(ds, {m}, e.idx))
     \cup (IF o.rel = e.rel THEN {} ELSE MsgProps(m) \cap {"C03", "C04", "C06"})
     \cup (IF SameRows(e.rows, o.rows) THEN {} ELSE {"C11"})
     \cup (IF m.cls = "balance" /\ ~DEq(m.nums[1], o.msg.nums[1]) THEN {"C11"} ELSE {})
     \cup (IF m.cls = "balance" /\ ~DEq(m.nums[2], o.msg.nums[2]) THEN {"C05", "C11"} ELSE {})

CompareErrs(mode, ds, E, O) ==
  IF Len(E) = Len(O) /\ \A k \in 1..Len(E) : Matches(E[k], O[k])
  THEN UNION {Details(mode, ds, E[k], O[k]) : k \in 1..Len(E)}
       \cup LET places(s) == [k \in 1..Len(s) |-> s[k].idx]       \* the same places, in another order
            IN IF places(E) # places(O) /\ ToSet(places(E)) = ToSet(places(O)) THEN {"C09"} ELSE {}
  ELSE LET at(s, i) == SelectSeq(s, LAMBDA x : x.idx[1] = i)
           one(i) ==
             LET e == at(E, i)
                 o == at(O, i)
             IN IF Len(e) = Len(o) /\ \A k \in 1..Len(e) : Matches(e[k], o[k])
                THEN UNION {Details(mode, ds, e[k], o[k]) : k \in 1..Len(e)}
                ELSE LET me == {k \in 1..Len(e) : \A l \in 1..Len(o) : ~Matches(e[k], o[l])}
                         mo == {l \in 1..Len(o) : \A k \in 1..Len(e) : ~Matches(e[k], o[l])}
                     IN UNION {About(ds, e[k].any, e[k].idx) : k \in me}
                        \cup UNION {About(ds, {o[l].msg}, o[l].idx) : l \in mo}
                        \cup {"C09"}
           I == {E[k].idx[1] : k \in 1..Len(E)} \cup {O[k].idx[1] : k \in 1..Len(O)}
           bad == UNION {one(i) : i \in I}
       IN IF bad = {} THEN {"C09"} ELSE bad         \* all there, but in another order

(************************* booked directives *******************************)
IsPadTxn(t) == t.kind = "txn" /\ t.flag = PadFlag
Shape(s) == [k \in 1..Len(s) |-> <<s[k].idx, s[k].kind>>]
SameOpt(a, b, Same(_, _)) == Has(a) = Has(b) /\ (Has(a) => Same(The(a), The(b)))
If(c, p) == IF c THEN {} ELSE {p}
Unless(c, P) == IF c THEN {} ELSE P

\* a value which was given must be passed on as it was written; one which was
\* not is computed, and only its value counts
Value(given, e, o) ==
  IF Has(given) THEN If(DSame(e, o), "C08") ELSE If(DEq(e, o), "C02")
Text(given, e, o) == If(e = o, IF Has(given) THEN "C08" ELSE "C02")

CompareCost(raw, booked, e, o) ==
  IF booked
  THEN If(/\ e.date = o.date /\ e.cur = o.cur /\ e.label = o.label /\ e.merge = o.merge
          /\ DEq(e.per, o.per) /\ DEq(e.total, o.total), "C07")
  ELSE Value(raw.per, e.per, o.per) \cup Value(raw.total, e.total, o.total)
       \cup Text(raw.cur, e.cur, o.cur) \cup Text(raw.date, e.date, o.date)
       \cup If(e.label = o.label /\ e.merge = o.merge, "C08")

ComparePrice(raw, e, o) ==
  Value(raw.per, e.per, o.per) \cup Text(raw.cur, e.cur, o.cur)
  \cup IF Has(e.total) # Has(o.total) THEN {"C02"}
       ELSE IF Has(e.total) THEN Value(raw.total, The(e.total), The(o.total)) ELSE {}

ComparePosting(raw, e, o) ==
  If(e.flag = o.flag /\ e.tags = o.tags /\ e.links = o.links /\ e.meta = o.meta, "C08")
  \cup (IF e.booked THEN If(DEq(e.units, o.units), "C07") ELSE Value(raw.units, e.units, o.units))
  \cup Text(raw.cur, e.cur, o.cur)
  \cup (IF Has(e.cost) # Has(o.cost) THEN {IF e.booked THEN "C07" ELSE "C08"}
        ELSE IF Has(e.cost) THEN CompareCost(The(raw.cost), e.booked, The(e.cost), The(o.cost)) ELSE {})
  \cup (IF Has(e.price) # Has(o.price) THEN {"C08"}
        ELSE IF Has(e.price) THEN ComparePrice(The(raw.price), The(e.price), The(o.price)) ELSE {})

SamePads(e, o) ==
  /\ Len(e) = Len(o)
  /\ \A k \in 1..Len(e) :
       /\ e[k].idx = o[k].idx /\ e[k].acc = o[k].acc /\ e[k].cur = o[k].cur /\ e[k].flag = o[k].flag
       /\ ~Has(o[k].cost) /\ ~Has(o[k].price) /\ DEq(e[k].units, o[k].units)
       /\ o[k].tags = <<>> /\ o[k].links = <<>> /\ o[k].meta = <<>>

\* do the booked postings o of directive d balance?  (e says which are reductions)
Weight(raw, e, o) ==
  IF e.booked THEN Extend(o.units, The(o.cost).per)
  ELSE IF Has(o.cost)
  THEN IF Has(raw.cost) /\ Has(The(raw.cost).per) /\ ~Has(The(raw.cost).total)
       THEN Extend(o.units, The(o.cost).per) ELSE The(o.cost).total
  ELSE IF Has(o.price)
  THEN IF Has(raw.price) /\ Has(The(raw.price).per) /\ ~Has(The(raw.price).total)
       THEN Extend(o.units, The(o.price).per)
       ELSE IF Has(The(o.price).total) THEN The(The(o.price).total) ELSE DMul(o.units, The(o.price).per)
  ELSE o.units
WeightCur(o) == IF Has(o.cost) THEN The(o.cost).cur ELSE IF Has(o.price) THEN The(o.price).cur ELSE o.cur
Balances(tol, d, e, o) ==
  LET C == {WeightCur(o[k]) : k \in 1..Len(o)}
      one(c) == LET S == SetToSortSeq({k \in 1..Len(o) : WeightCur(o[k]) = c}, <)
                IN ~Has(Residual(tol, [j \in 1..Len(S) |-> Weight(d.ps[The(o[S[j]].idx) + 1], e[S[j]], o[S[j]])], c))
  IN \A c \in C : one(c)

CompareTxn(tol, d, e, o) ==
  IF IsPadTxn(e) \/ IsPadTxn(o) THEN If(SamePads(e.ps, o.ps), "C06")
  ELSE
  LET at(ps) == [k \in 1..Len(ps) |-> <<ps[k].idx, ps[k].acc>>]
      split(ps) == \E j, k \in 1..Len(ps) : j # k /\ ps[j].idx = ps[k].idx
      bad == UNION {ComparePosting(d.ps[The(e.ps[k].idx) + 1], e.ps[k], o.ps[k]) : k \in 1..Len(e.ps)}
  IN IF at(e.ps) # at(o.ps)
     THEN {"C08"} \cup (IF split(e.ps) \/ split(o.ps) THEN {"C07"} ELSE {})
     ELSE bad \cup (IF bad = {} \/ Balances(tol, d, e.ps, o.ps) THEN {} ELSE {"C01"})

CompareDct(tol, ds, e, o) ==
  Unless(/\ e.date = o.date /\ e.tags = o.tags /\ e.links = o.links /\ e.meta = o.meta
     /\ e.body = o.body /\ e.flag = o.flag /\ e.payee = o.payee /\ e.narration = o.narration,
     IF IsPadTxn(e) THEN {"C06", "C08"} ELSE {"C08"})
  \cup IF e.kind = "txn" THEN CompareTxn(tol, ds[e.idx + 1], e, o) ELSE {}

CompareOut(tol, ds, E, O) ==
  IF Shape(E) # Shape(O)
  THEN {"C08"} \cup
       IF \/ Len(SelectSeq(E, IsPadTxn)) # Len(SelectSeq(O, IsPadTxn))
          \/ Shape(SelectSeq(E, IsPadTxn)) # Shape(SelectSeq(O, IsPadTxn)) THEN {"C06"} ELSE {}
  ELSE UNION {CompareDct(tol, ds, E[k], O[k]) : k \in 1..Len(E)}

(************************* the verdict of a run ****************************)
Verdict(r, ds) ==
  CASE r.obs.status = "crash" -> LedgerProps
    [] r.obs.status = "ok" /\ Succeeded -> CompareOut(Tol, ds, out, r.obs.out)
    [] r.obs.status = "ok" -> {"C09"} \cup UNION {About(ds, AllErrs[k].any, AllErrs[k].idx) : k \in 1..Len(AllErrs)}
    [] r.obs.status = "err" -> (IF Succeeded THEN {"C09"} ELSE {})
                               \cup CompareErrs(r.mode, ds, AllErrs, r.obs.errs)
    [] OTHER -> LedgerProps

\* two observations of the same directives, given in different ways
SameDec(a, b) == DSame(a, b)
SameObsCost(a, b) == /\ a.date = b.date /\ a.cur = b.cur /\ a.label = b.label /\ a.merge = b.merge
                     /\ DSame(a.per, b.per) /\ DSame(a.total, b.total)
SameObsPrice(a, b) == DSame(a.per, b.per) /\ a.cur = b.cur /\ SameOpt(a.total, b.total, SameDec)
SameObsPosting(a, b) ==
  /\ a.idx = b.idx /\ a.acc = b.acc /\ a.cur = b.cur /\ a.flag = b.flag
  /\ a.tags = b.tags /\ a.links = b.links /\ a.meta = b.meta
  /\ DSame(a.units, b.units)
  /\ SameOpt(a.cost, b.cost, SameObsCost) /\ SameOpt(a.price, b.price, SameObsPrice)
SameObsDct(a, b) ==
  /\ a.idx = b.idx /\ a.kind = b.kind /\ a.date = b.date /\ a.tags = b.tags /\ a.links = b.links
  /\ a.meta = b.meta /\ a.body = b.body /\ a.flag = b.flag /\ a.payee = b.payee
  /\ a.narration = b.narration /\ Len(a.ps) = Len(b.ps)
  /\ \A k \in 1..Len(a.ps) : SameObsPosting(a.ps[k], b.ps[k])
\* of several things wrong with one transaction any may be reported, for its
\* currencies are booked in no particular order
SameObsErr(k, a, b) ==
  /\ \/ /\ a.msg.cls = b.msg.cls /\ a.msg.text = b.msg.text /\ a.msg.at = b.msg.at
        /\ a.msg.curs = b.msg.curs /\ SameNums(a.msg.nums, b.msg.nums)
     \/ k <= Len(AllErrs) /\ Matches(AllErrs[k], a) /\ Matches(AllErrs[k], b)
  /\ a.idx = b.idx /\ a.rel = b.rel /\ SameRows(a.rows, b.rows)
SameObs(a, b) ==
  /\ a.status = b.status
  /\ Len(a.out) = Len(b.out) /\ \A k \in 1..Len(a.out) : SameObsDct(a.out[k], b.out[k])
  /\ Len(a.errs) = Len(b.errs) /\ \A k \in 1..Len(a.errs) : SameObsErr(k, a.errs[k], b.errs[k])

\* properties which relate the runs of a case
Relate(c, vs) ==
  (IF c.pair = "params" /\ ~SameObs(c.runs[1].obs, c.runs[2].obs) THEN {"C13"} ELSE {})
  \cup (IF c.pair = "again" /\ ~SameObs(c.runs[1].obs, c.runs[2].obs) THEN {"C22"} ELSE {})
  \cup (IF c.pair = "opts" /\ vs[1] = {} /\ vs[2] # {} THEN {"C12"} ELSE {})

(************************* behaviours **************************************)
TInit ==
  /\ cid \in 1..Len(Cases)
  /\ run = 1 /\ flags = <<>> /\ fin = FALSE
  /\ todo = Order(Runs[1])
  /\ Start(Runs[1].opts)

Book1 ==
  /\ todo # <<>> /\ ~fin
  /\ Step(Head(todo))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<cid, run, flags, fin>>

Finish ==
  /\ todo = <<>> /\ ~fin
  /\ LET r == Runs[run]
         v == IF odd THEN {} ELSE Verdict(r, Order(r))
         vs == Append(flags, v)
         rel == IF run = Len(Runs) /\ ~odd THEN Relate(Cases[cid], vs) ELSE {}
     IN /\ PrintT(<<"RUN", Cases[cid].id, run, IF odd THEN "odd" ELSE IF Succeeded THEN "ok" ELSE "err",
                    Len(out), {MsgProps(m) : m \in UNION {AllErrs[k].any : k \in 1..Len(AllErrs)}}, v \cup rel>>)
        /\ IF run < Len(Runs)
           THEN /\ run' = run + 1
                /\ flags' = vs
                /\ fin' = FALSE
                /\ todo' = Order(Runs[run + 1])
                /\ Restart(Runs[run + 1].opts)
           ELSE /\ flags' = Append(vs, rel)
                /\ fin' = TRUE
                /\ UNCHANGED <<run, todo, vars>>
  /\ UNCHANGED cid

TNext == Book1 \/ Finish
TSpec == TInit /\ [][TNext]_<<vars, tvars>>

\* nothing observed refutes the property being checked
Holds == \A k \in 1..Len(flags) : Prop \notin flags[k]

=============================================================================
