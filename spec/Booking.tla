------------------------------ MODULE Booking ------------------------------
(* What booking one transaction means: completing the postings, matching    *)
(* reductions against the lots held, and balancing.                         *)
(*                                                                          *)
(* An optional value is a sequence of length 0 or 1.                        *)
(*                                                                          *)
(* A posting as written: [acc, units, cur, cost, price, ...] where units,   *)
(* cur, cost, price are optional, cost = [per, total, cur, date, label,     *)
(* merge] (all optional but merge), price = [per, total, cur] (optional).   *)
(*                                                                          *)
(* A position: [units, cur, cost] where cost is optional and complete:      *)
(* [date, per, total, cur, label, merge].  The inventory maps an account to *)
(* the sequence of its positions, ordered by PosLess.                       *)
EXTENDS Dec, Text, Sequences, FiniteSets, SequencesExt, TLC

None == <<>>
Some(x) == <<x>>
Has(o) == Len(o) = 1
The(o) == o[1]
OrElse(a, b) == IF Has(a) THEN a ELSE b
Seq2Set(s) == {s[i] : i \in 1..Len(s)}
SumDec(s) == FoldLeft(LAMBDA a, b : DAdd(a, b), DZero, s)

(***************************** errors **************************************)
\* An error has a class: "text" for a fixed text, maybe saying which posting
\* (at), or one of those with numbers and currencies in it.
Msg(t) == [cls |-> "text", text |-> t, at |-> <<>>, nums |-> <<>>, curs |-> <<>>]
OnPosting(t, i) == [Msg(t) EXCEPT !.at = <<i - 1>>]

(***************************** tolerance ***********************************)
\* tol = [mult, dflt, fb]: the multiplier (optional), default tolerances by
\* currency (sequence of [cur, tol]) and the fallback (optional)
Multiplier(tol) == IF Has(tol.mult) THEN The(tol.mult) ELSE DNew(5, 1)
DefaultTol(tol, cur) ==
  LET S == {i \in 1..Len(tol.dflt) : tol.dflt[i].cur = cur}
  IN IF S # {} THEN Some(tol.dflt[CHOOSE i \in S : TRUE].tol) ELSE tol.fb

\* the residual of some weights in a currency, or none if within tolerance
Residual(tol, vals, cur) ==
  LET r == SumDec(vals)
      scales == {vals[i].s : i \in {j \in 1..Len(vals) : vals[j].s > 0}}
      dt == DefaultTol(tol, cur)
      off == IF scales # {}
             THEN ~DLt(DAbs(r), DMul(DNew(1, CHOOSE x \in scales : \A y \in scales : x <= y), Multiplier(tol)))
             ELSE IF Has(dt) THEN DLt(The(dt), DAbs(r))
             ELSE ~DIsZero(r)
  IN IF off THEN Some(r) ELSE None

(***************************** positions ***********************************)
OptTLess(a, b) == IF Has(a) /\ Has(b) THEN TLess(The(a), The(b)) ELSE ~Has(a) /\ Has(b)
SameCost(c, d) == /\ c.date = d.date /\ c.cur = d.cur /\ DEq(c.per, d.per)
                  /\ c.label = d.label /\ c.merge = d.merge
CostLess(c, d) ==
  IF c.date # d.date THEN c.date < d.date
  ELSE IF c.cur # d.cur THEN TLess(c.cur, d.cur)
  ELSE IF ~DEq(c.per, d.per) THEN DLt(c.per, d.per)
  ELSE IF c.label # d.label THEN OptTLess(c.label, d.label)
  ELSE ~c.merge /\ d.merge
SamePos(p, q) == /\ p.cur = q.cur
                 /\ Has(p.cost) = Has(q.cost)
                 /\ Has(p.cost) => SameCost(The(p.cost), The(q.cost))
PosLess(p, q) ==
  IF p.cur # q.cur THEN TLess(p.cur, q.cur)
  ELSE IF Has(p.cost) /\ Has(q.cost) THEN CostLess(The(p.cost), The(q.cost))
  ELSE ~Has(p.cost) /\ Has(q.cost)

\* add a position; lots with the same cost merge, except under method "none"
Accumulate(poss, p, method) ==
  LET merges(i) == /\ SamePos(poss[i], p)
                   /\ (method # "none" \/ ~Has(p.cost))
      before(i) == IF method = "none" /\ poss[i].cur = p.cur /\ Has(p.cost)
                   THEN TRUE ELSE PosLess(poss[i], p)
      M == {i \in 1..Len(poss) : merges(i)}
      n == Cardinality({i \in 1..Len(poss) : before(i)})
  IN IF M # {}
     THEN LET i == CHOOSE i \in M : TRUE
          IN [poss EXCEPT ![i].units = DAdd(@, p.units)]
     ELSE SubSeq(poss, 1, n) \o <<p>> \o SubSeq(poss, n + 1, Len(poss))

UnitsOf(poss, cur) ==
  LET own == SelectSeq(poss, LAMBDA p : p.cur = cur)
  IN SumDec([i \in 1..Len(own) |-> own[i].units])

Positions(inv, acc) == IF acc \in DOMAIN inv THEN inv[acc] ELSE <<>>

(***************************** buckets *************************************)
\* Every posting is balanced in the currency of its cost, else of its price,
\* else its own.
CostCur(p) == IF Has(p.cost) THEN The(p.cost).cur ELSE None
PriceCur(p) == IF Has(p.price) THEN The(p.price).cur ELSE None
Plain(p) == ~Has(p.cost) /\ ~Has(p.price)
Annotate(p, i) == [i |-> i, p |-> p, cur |-> p.cur,
                   ccur |-> OrElse(CostCur(p), PriceCur(p)),
                   pcur |-> OrElse(PriceCur(p), CostCur(p))]
Bucket(a) == IF Has(a.ccur) THEN a.ccur
             ELSE IF Has(a.pcur) THEN a.pcur
             ELSE IF Plain(a.p) THEN a.cur ELSE None
IsAuto(a) == ~Has(a.p.units) /\ ~Has(a.p.cur)

AccountCur(inv, acc) ==
  LET S == {Positions(inv, acc)[i].cur : i \in 1..Len(Positions(inv, acc))}
  IN IF Cardinality(S) = 1 THEN Some(CHOOSE c \in S : TRUE) ELSE None
LotCur(inv, acc) ==
  LET P == Positions(inv, acc)
      S == {The(P[i].cost).cur : i \in {j \in 1..Len(P) : Has(P[j].cost)}}
  IN IF Cardinality(S) = 1 THEN Some(CHOOSE c \in S : TRUE) ELSE None
InferBucket(inv, a) ==
  IF Has(a.p.cost) /\ ~Has(a.ccur)
  THEN OrElse(LotCur(inv, a.p.acc), AccountCur(inv, a.p.acc))
  ELSE AccountCur(inv, a.p.acc)

\* [errs, groups]: groups maps each bucket currency to the sequence of its
\* annotated postings; errs is the set of errors of which one is reported
Categorize(ps, inv) ==
  LET all == [i \in 1..Len(ps) |-> Annotate(ps[i], i)]
      autos == SelectSeq(all, IsAuto)
      known == SelectSeq(all, LAMBDA a : ~IsAuto(a) /\ Has(Bucket(a)))
      unknown == SelectSeq(all, LAMBDA a : ~IsAuto(a) /\ ~Has(Bucket(a)))
      dup == {autos[j].i : j \in {k \in 1..Len(autos) :
                 \E l \in 1..(k - 1) : Bucket(autos[l]) = Bucket(autos[k])}}
      G0 == {The(Bucket(known[i])) : i \in 1..Len(known)}
      only == CHOOSE c \in G0 : TRUE
      lone == Len(unknown) = 1 /\ Cardinality(G0) = 1
      \* a lone unknown posting joins the only group
      placed == [i \in 1..Len(unknown) |->
        IF lone
        THEN [b |-> Some(only),
              a |-> [unknown[i] EXCEPT
                       !.cur = OrElse(@, IF Plain(unknown[i].p) THEN Some(only) ELSE None),
                       !.ccur = OrElse(@, Some(only)),
                       !.pcur = OrElse(@, Some(only))]]
        ELSE [b |-> InferBucket(inv, unknown[i]), a |-> unknown[i]]]
      lost == {unknown[i].i : i \in {j \in 1..Len(unknown) : ~Has(placed[j].b)}}
      G1 == G0 \cup {The(placed[i].b) : i \in {j \in 1..Len(placed) : Has(placed[j].b)}}
      free == SelectSeq(autos, LAMBDA a : ~Has(Bucket(a)))
      bound == SelectSeq(autos, LAMBDA a : Has(Bucket(a)))
      G == G1 \cup {The(Bucket(bound[i])) : i \in 1..Len(bound)}
      group(c) ==
        SelectSeq(known, LAMBDA a : The(Bucket(a)) = c)
        \o LET u == SelectSeq(placed, LAMBDA x : x.b = Some(c)) IN [i \in 1..Len(u) |-> u[i].a]
        \o SelectSeq(bound, LAMBDA a : The(Bucket(a)) = c)
        \o IF Len(free) = 1 THEN free ELSE <<>>
      least(S) == CHOOSE x \in S : \A y \in S : x <= y
      fail(e) == [errs |-> {e}, groups |-> <<>>]
  IN IF dup # {} THEN fail(OnPosting("ambiguous auto-post", least(dup)))
     ELSE IF lost # {} THEN fail(OnPosting("cannot infer anything", least(lost)))
     ELSE IF Len(free) = 1 /\ Len(bound) > 0
       THEN fail(OnPosting("ambiguous auto-post", free[1].i))
     ELSE IF Len(free) = 1 /\ G1 = {}
       THEN fail(Msg("can't determine currency for balancing transaction"))
     ELSE IF Len(free) = 1 /\ Cardinality(G1) > 1
       THEN fail([Msg("") EXCEPT !.cls = "multi", !.curs = SetToSortSeq(G1, TLess)])
     ELSE [errs |-> {}, groups |-> [c \in G |-> group(c)]]

(***************************** reductions **********************************)
Opposite(a, b) == DSign(a) # 0 /\ DSign(b) # 0 /\ DSign(a) # DSign(b)

CostMatches(c, spec) ==
  /\ Has(spec.date) => The(spec.date) = c.date
  /\ Has(spec.cur) => The(spec.cur) = c.cur
  /\ Has(spec.per) => DEq(The(spec.per), c.per)
  /\ Has(spec.label) => spec.label = c.label

\* one lot as it appears on a reducing posting
Adj(pos, units) == LET c == The(pos.cost) IN
  [units |-> units, date |-> c.date, per |-> c.per, total |-> c.total,
   label |-> c.label, merge |-> c.merge]

WithoutEmpty(poss) == SelectSeq(poss, LAMBDA p : ~DIsZero(p.units))

\* consume the lots at positions ord[1], ord[2], ... until units are covered
RECURSIVE Consume(_, _, _, _)
Consume(poss, ord, units, adjs) ==
  IF ord = <<>> \/ DIsZero(units) THEN [poss |-> poss, left |-> units, adjs |-> adjs]
  ELSE LET p == poss[ord[1]]
           take == IF DLe(DAbs(units), DAbs(p.units)) THEN units ELSE DNeg(p.units)
       IN Consume([poss EXCEPT ![ord[1]].units = DAdd(@, take)], Tail(ord),
                  DSub(units, take), Append(adjs, Adj(p, take)))

\* Try to book posting a as a reduction of lots held.
\*   how = "no": it is not a reduction;  "err": it fails with err;
\*   "yes": lots adjs (all of cost currency ccur) are reduced, leaving poss.
\* odd: a corner of the booking library which departs from this (see DESIGN)
Reduce(a, tol, method, inv) ==
  LET no == [how |-> "no", odd |-> FALSE]
      fail(t, o) == [how |-> "err", err |-> OnPosting(t, a.i), odd |-> o]
      yes(ccur, adjs, poss, o) ==
        [how |-> "yes", ccur |-> ccur, adjs |-> adjs, poss |-> poss, odd |-> o]
  IN
  IF ~( /\ method # "none" /\ Has(a.cur) /\ Has(a.p.units) /\ Has(a.p.cost)
        /\ a.p.acc \in DOMAIN inv ) THEN no
  ELSE
  LET cur == The(a.cur)
      units == The(a.p.units)
      spec == The(a.p.cost)
      poss == inv[a.p.acc]
      held == {i \in 1..Len(poss) : poss[i].cur = cur}
      reducing == \E i \in held : Opposite(poss[i].units, units)
      M == {i \in held : Has(poss[i].cost) /\ CostMatches(The(poss[i].cost), spec)}
      matched == SetToSortSeq(M, <)
      ccurs == {The(poss[i].cost).cur : i \in M}
      ccur == CHOOSE c \in ccurs : TRUE
      others == Len(poss) # Cardinality(held)
      mixed == \E i \in M : ~Opposite(poss[i].units, units)
      one(i) == IF DLt(DAbs(poss[i].units), DAbs(units)) THEN fail("not enough lots to reduce", mixed)
                ELSE yes(The(poss[i].cost).cur, <<Adj(poss[i], units)>>,
                         SubSeq(poss, 1, i - 1)
                           \o WithoutEmpty(<<[poss[i] EXCEPT !.units = DAdd(@, units)]>>)
                           \o SubSeq(poss, i + 1, Len(poss)), mixed)
      older(i, j) == The(poss[i].cost).date < The(poss[j].cost).date
                     \/ (The(poss[i].cost).date = The(poss[j].cost).date /\ i < j)
      dearer(i, j) == DLt(The(poss[j].cost).per, The(poss[i].cost).per)
                     \/ (DEq(The(poss[i].cost).per, The(poss[j].cost).per) /\ i < j)
      exact == SetToSortSeq({i \in M : DEq(poss[i].units, DNeg(units))}, older)
      order == CASE method = "fifo" -> matched
                 [] method = "lifo" -> Reverse(matched)
                 [] method = "hifo" -> SetToSortSeq(M, dearer)
                 [] OTHER -> <<>>
  IN
  IF ~reducing
  THEN IF DSign(units) < 0 /\ held = {} THEN fail("no position matches", FALSE) ELSE no
  ELSE IF M = {} THEN fail("no position matches", FALSE)
  ELSE IF Cardinality(M) = 1 THEN one(CHOOSE i \in M : TRUE)
  ELSE IF ~Has(Residual(tol, [i \in 1..Len(matched) |-> poss[matched[i]].units] \o <<units>>, cur))
  THEN \* all that matches is sold
       IF Cardinality(ccurs) > 1 THEN fail("multiple currencies in cost spec matches against inventory", FALSE)
       ELSE yes(ccur, [i \in 1..Len(matched) |-> Adj(poss[matched[i]], DNeg(poss[matched[i]].units))],
                LET keep == SetToSortSeq((1..Len(poss)) \ M, <) IN [i \in 1..Len(keep) |-> poss[keep[i]]],
                mixed)
  ELSE IF method \in {"fifo", "lifo", "hifo"}
  THEN LET r == Consume(poss, order, units, <<>>)
           o == others \/ mixed \/ DSign(units) > 0
       IN IF Cardinality(ccurs) > 1
          THEN [how |-> "err", odd |-> o,
                err |-> OnPosting(IF ~DIsZero(r.left) /\ DSign(units) > 0 THEN "not enough lots to reduce"
                        ELSE "multiple currencies in cost spec matches against inventory", a.i)]
          ELSE IF ~DIsZero(r.left) THEN fail("not enough lots to reduce", o)
          ELSE yes(ccur, r.adjs, WithoutEmpty(r.poss), o)
  ELSE IF method = "strict-with-size" /\ exact # <<>> THEN one(exact[1])
  ELSE fail("ambiguous matches", FALSE)

(***************************** weights *************************************)
SaneScale(units, per) == IF units.s = 0 THEN per.s ELSE units.s
Extend(units, per) == DRescale(DMul(units, per), SaneScale(units, per))

SpecWeight(units, spec) ==
  IF Has(spec.total) THEN spec.total
  ELSE IF Has(spec.per) /\ Has(units) THEN Some(Extend(The(units), The(spec.per)))
  ELSE None
PostingWeight(p) ==
  IF Has(p.cost) THEN SpecWeight(p.units, The(p.cost))
  ELSE IF Has(p.price) THEN SpecWeight(p.units, The(p.price))
  ELSE p.units
LotsWeight(adjs) == SumDec([k \in 1..Len(adjs) |-> Extend(adjs[k].units, adjs[k].per)])

(***************************** completion **********************************)
\* units with per-unit and total of a cost or price, once the weight is known
Conv(units, spec, weight) ==
  LET none == [units |-> None, per |-> None, total |-> None]
      infer(t, u) == [units |-> Some(u),
                      per |-> IF DIsZero(u) THEN None ELSE Some(DAbs(DDiv(t, u))),
                      total |-> Some(t)]
  IN IF Has(units) /\ Has(spec.per)
       THEN [units |-> units, per |-> spec.per,
             total |-> OrElse(spec.total, Some(DMul(The(units), The(spec.per))))]
     ELSE IF Has(spec.per)
       THEN IF DIsZero(The(spec.per)) THEN none
            ELSE LET u == DRescale(DDiv(weight, The(spec.per)), weight.s)
                 IN [units |-> Some(u), per |-> spec.per,
                     total |-> OrElse(spec.total, Some(DMul(u, The(spec.per))))]
     ELSE IF Has(units) /\ Has(spec.total) THEN infer(The(spec.total), The(units))
     ELSE IF Has(units) THEN infer(weight, The(units))
     ELSE none

\* a completed posting: cost is a sequence of lots, all in currency ccur
Done(a, units, cur, ccur, lots, price, booked) ==
  [i |-> a.i, units |-> units, cur |-> cur, ccur |-> ccur, lots |-> lots,
   price |-> price, booked |-> booked]

\* [err, done]
CompletePosting(date, bucket, weight, a) ==
  LET fail(t) == [err |-> Some(OnPosting(t, a.i)), done |-> None]
      ok(x) == [err |-> None, done |-> Some(x)]
      p == a.p
  IN
  IF Plain(p) THEN ok(Done(a, weight, bucket, bucket, <<>>, None, FALSE))
  ELSE LET spec == IF Has(p.cost) THEN The(p.cost) ELSE The(p.price)
           v == Conv(p.units, spec, weight)
           u == Has(v.units)
           c == Has(a.cur)
       IN
       IF ~u /\ ~c THEN fail("cannot infer anything")
       ELSE IF ~u THEN fail("cannot infer units")
       ELSE IF ~c THEN fail("cannot infer currency")
       ELSE IF Has(p.cost)
       THEN IF Has(a.ccur) /\ Has(v.per)
            THEN ok(Done(a, The(v.units), The(a.cur), The(a.ccur),
                   <<[units |-> The(v.units),
                      date |-> IF Has(spec.date) THEN The(spec.date) ELSE date,
                      per |-> The(v.per), total |-> The(v.total),
                      label |-> spec.label, merge |-> spec.merge]>>, None, FALSE))
            ELSE IF Has(v.per) THEN fail("cannot infer currency")
            ELSE IF Has(a.ccur) THEN fail("cannot infer units")
            ELSE fail("cannot infer anything")
       ELSE IF Has(a.pcur) /\ Has(v.per)
            THEN ok(Done(a, The(v.units), The(a.cur), bucket, <<>>,
                   Some([per |-> The(v.per), total |-> v.total, cur |-> The(a.pcur)]), FALSE))
            ELSE IF Has(a.pcur) THEN fail("cannot infer price per-unit")
            ELSE IF Has(v.per) THEN fail("cannot infer price currency")
            ELSE fail("cannot infer price")

(***************************** one currency group **************************)
\* acc = [err, inv, done, res, odd] threaded through the groups
\* odd also when lots are weighed in another currency than that of their cost,
\* which the booking library does when the cost currency is left out and is
\* not that of the rest of the group (a known finding: it doesn't balance)
RECURSIVE ReduceAll(_, _, _, _, _, _)
ReduceAll(bucket, group, tol, meth(_), k, s) ==
  IF k > Len(group) \/ Has(s.err) THEN s
  ELSE LET a == group[k]
           r == Reduce(a, tol, meth(a.p.acc), s.inv)
           s1 == [s EXCEPT !.odd = @ \/ r.odd \/ (r.how = "yes" /\ r.ccur # bucket)]
       IN ReduceAll(bucket, group, tol, meth, k + 1,
            CASE r.how = "err" -> [s1 EXCEPT !.err = Some(r.err)]
              [] r.how = "no"  -> [s1 EXCEPT !.items = Append(@, [booked |-> FALSE, a |-> a])]
              [] OTHER -> [s1 EXCEPT !.inv = [@ EXCEPT ![a.p.acc] = r.poss],
                             !.items = Append(@, [booked |-> TRUE, a |-> a,
                                done |-> Done(a, The(a.p.units), The(a.cur), r.ccur, r.adjs, None, TRUE)])])

RECURSIVE Augment(_, _, _, _)
Augment(dones, ps, meth(_), inv) ==
  IF dones = <<>> THEN inv
  ELSE LET d == dones[1]
           acc == ps[d.i].acc
           cost == IF d.lots = <<>> THEN None
                   ELSE LET l == d.lots[1] IN
                        Some([date |-> l.date, per |-> l.per, total |-> l.total,
                              cur |-> d.ccur, label |-> l.label, merge |-> l.merge])
           poss == Accumulate(Positions(inv, acc), [units |-> d.units, cur |-> d.cur, cost |-> cost], meth(acc))
       IN Augment(Tail(dones), ps, meth, IF d.booked THEN inv ELSE (acc :> poss) @@ inv)

BookGroup(date, bucket, group, ps, tol, meth(_), s) ==
  LET r == ReduceAll(bucket, group, tol, meth, 1, [err |-> None, inv |-> s.inv, items |-> <<>>, odd |-> FALSE])
      items == r.items
      w == [k \in 1..Len(items) |->
              IF items[k].booked THEN Some(LotsWeight(items[k].done.lots)) ELSE PostingWeight(items[k].a.p)]
      known == SelectSeq(w, Has)
      res == Residual(tol, [k \in 1..Len(known) |-> The(known[k])], bucket)
      missing == Len(w) - Len(known)
      fill == IF Has(res) THEN DNeg(The(res)) ELSE DZero
      c == [k \in 1..Len(items) |->
              IF items[k].booked THEN [err |-> None, done |-> Some(items[k].done)]
              ELSE CompletePosting(date, bucket, IF Has(w[k]) THEN The(w[k]) ELSE fill, items[k].a)]
      bad == SelectSeq(c, LAMBDA x : Has(x.err))
      dones == [k \in 1..Len(c) |-> The(c[k].done)]
      odd == s.odd \/ r.odd
  IN IF Has(r.err) THEN [s EXCEPT !.err = r.err, !.odd = odd]
     ELSE IF missing > 1
       THEN [s EXCEPT !.err = Some(Msg("too many missing numbers for interpolation")), !.odd = odd]
     ELSE IF bad # <<>> THEN [s EXCEPT !.err = bad[1].err, !.odd = odd]
     ELSE [err |-> None, odd |-> odd,
           inv |-> Augment(dones, ps, meth, r.inv),
           done |-> s.done \o dones,
           res |-> IF missing = 0 /\ Has(res) THEN Append(s.res, [cur |-> bucket, n |-> The(res)]) ELSE s.res]

RECURSIVE BookGroups(_, _, _, _, _, _, _)
BookGroups(date, order, groups, ps, tol, meth(_), s) ==
  IF order = <<>> \/ Has(s.err) THEN s
  ELSE BookGroups(date, Tail(order), groups, ps, tol, meth,
                  BookGroup(date, order[1], groups[order[1]], ps, tol, meth, s))

\* Book the postings ps of a transaction.  The currency groups are booked in
\* an arbitrary order, so there may be several outcomes:
\* errs: the set of errors of which one is reported, or {} when it succeeds;
\* done: the completed postings in the order written; odd: see Reduce
Book(date, ps, tol, meth(_), inv) ==
  LET cat == Categorize(ps, inv)
      G == DOMAIN cat.groups
      runs == {BookGroups(date, o, cat.groups, ps, tol, meth,
                 [err |-> None, inv |-> inv, done |-> <<>>, res |-> <<>>, odd |-> FALSE])
               : o \in SetToSeqs(G)}
      r == CHOOSE x \in runs : TRUE
      res == SetToSortSeq(Seq2Set(r.res), LAMBDA a, b : TLess(a.cur, b.cur))
      unbalanced == [Msg("") EXCEPT !.cls = "unbalanced",
                     !.nums = [k \in 1..Len(res) |-> DNeg(res[k].n)],
                     !.curs = [k \in 1..Len(res) |-> res[k].cur]]
      errs == UNION {IF Has(x.err) THEN {The(x.err)} ELSE {} : x \in runs}
      split == (\E x \in runs : Has(x.err)) /\ (\E x \in runs : ~Has(x.err))
      differ == \E x, y \in runs : ~Has(x.err) /\ ~Has(y.err) /\ x.inv # y.inv
      odd == split \/ differ \/ \E x \in runs : x.odd
  IN IF cat.errs # {} THEN [errs |-> cat.errs, done |-> <<>>, inv |-> inv, odd |-> FALSE]
     ELSE IF errs # {} THEN [errs |-> errs, done |-> <<>>, inv |-> inv, odd |-> odd]
     ELSE IF r.res # <<>> THEN [errs |-> {unbalanced}, done |-> <<>>, inv |-> inv, odd |-> odd]
     ELSE [errs |-> {}, odd |-> odd, inv |-> r.inv,
           done |-> [i \in 1..Len(ps) |-> CHOOSE d \in Seq2Set(r.done) : d.i = i]]
=============================================================================
