------------------------------ MODULE QueryMC ------------------------------
(* Exhaustive exploration of Query: every sequence of at most Depth of a    *)
(* few transactions, after some which set the scene, asked every one of a   *)
(* few queries.  The invariants say what an answer means, whatever the      *)
(* order in which it was put together.                                      *)
EXTENDS Query, Json, IOUtils, TLC

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
Universe == Theme.universe
Scene == Theme.scene
Depth == Theme.depth
Queries == Theme.queries
Optss == Theme.opts

VARIABLES hist, qn, on
mvars == <<hist, qn, on>>
Hists == UNION {[1..d -> 1..Len(Universe)] : d \in 0..Depth}
MInit == /\ hist \in Hists /\ qn \in 1..Len(Queries) /\ on \in 1..Len(Optss)
         /\ Begin(Scene \o [k \in 1..Len(hist) |-> Universe[hist[k]]], Optss[on], Queries[qn])
MNext == /\ QNext /\ UNCHANGED mvars
         /\ Has(answer') /\ ~Has(answer) => PrintT(<<"B", on, qn, hist>>)
MSpec == MInit /\ [][MNext]_<<qvars, mvars>>

(*************************** what users rely on ****************************)
A == The(answer)
Chosen == SelectSeq(Postings, LAMBDA p : Selected(p))
RECURSIVE Sum(_)
Sum(ps) == IF ps = <<>> THEN DNew(0, 0) ELSE JAdd(Sum(SubSeq(ps, 1, Len(ps) - 1)), ps[Len(ps)].u)
SumBy(ps, Is(_)) == Sum(SelectSeq(ps, Is))
AccsOf(ps) == {ps[k].acc : k \in 1..Len(ps)}
CursIn(ps) == {ps[k].cur : k \in 1..Len(ps)}
IsInventory == Answered /\ A.kind = "inventory"
IsRollup == Answered /\ A.kind = "rollup"
IsJournal == Answered /\ A.kind = "journal"

\* nothing is lost and nothing added: units of each account and currency are what was posted
SumsHeld ==
  IsInventory =>
    \A a \in AccsOf(Chosen), c \in CursIn(Chosen) :
      LET ks == {k \in 1..Len(A.val) : A.val[k].acc = a}
      IN DEq(SumBy(Chosen, LAMBDA p : p.acc = a /\ p.cur = c),
             IF ks = {} THEN DNew(0, 0) ELSE SumBy(A.val[CHOOSE k \in ks : TRUE].ps, LAMBDA p : p.cur = c))
\* also cost by cost
LotsHeld ==
  IsInventory =>
    \A k \in 1..Len(A.val) : \A j \in 1..Len(A.val[k].ps) :
      LET q == A.val[k].ps[j] IN
      BookingOf(A.val[k].acc) \in Merging =>
        DEq(q.u, SumBy(Chosen, LAMBDA p : p.acc = A.val[k].acc /\ Same(p, q)))
\* accounts and positions are listed once, in order, and not if they are zero
InOrder ==
  IsInventory =>
    /\ \A i, j \in 1..Len(A.val) : i < j => TLess(A.val[i].acc, A.val[j].acc)
    /\ \A k \in 1..Len(A.val) :
         LET ps == A.val[k].ps IN
         /\ Len(ps) > 0
         /\ \A i \in 1..Len(ps) : ~DIsZero(ps[i].u)
         /\ \A i, j \in 1..Len(ps) : i < j /\ ps[i].cur # ps[j].cur => TLess(ps[i].cur, ps[j].cur)
         /\ BookingOf(A.val[k].acc) \in Merging => \A i, j \in 1..Len(ps) : i < j => Before(ps[i], ps[j])
\* in an account without booking, lots are kept as they came
Unbooked ==
  IsInventory =>
    \A k \in 1..Len(A.val) :
      BookingOf(A.val[k].acc) = "none" =>
        \A c \in CursIn(A.val[k].ps) :
          LET costs(ps) == SelectSeq(ps, LAMBDA p : Has(p.cost) /\ p.cur = c /\ ~DIsZero(p.u))
              mine == SelectSeq(Chosen, LAMBDA p : p.acc = A.val[k].acc)
              us(ps) == [i \in 1..Len(ps) |-> <<ps[i].u, ps[i].cost>>]
          IN us(costs(A.val[k].ps)) = us(costs(mine))
\* every posting selected is an entry of the journal, and the balance is the sum up to there
Running ==
  IsJournal =>
    /\ Len(A.val) = Len(Chosen)
    /\ \A k \in 1..Len(A.val) :
         LET e == A.val[k] p == Chosen[k] IN
         /\ <<e.date, e.acc, e.payee, e.narration, e.flag, e.u, e.cur>> = <<p.date, p.acc, p.payee, p.narration, p.flag, p.u, p.cur>>
         /\ \A c \in CursIn(Chosen) :
              DEq(SumBy(SubSeq(Chosen, 1, k), LAMBDA x : x.cur = c), SumBy(e.bal, LAMBDA x : x.cur = c))
         /\ \A i, j \in 1..Len(e.bal) : i < j => TLess(e.bal[i].cur, e.bal[j].cur)
         /\ \A i \in 1..Len(e.bal) : ~DIsZero(e.bal[i].u)
\* a total is what is posted to the account and its sub-accounts, and is there wherever it differs from the item
RolledUp ==
  IsRollup =>
    \/ A.val = <<>>
    \/ \E c \in Primary : \A a \in UNION {Parents(x) : x \in AccsOf(Chosen)} :
         LET t == SumBy(Chosen, LAMBDA p : p.cur = c /\ IsSubOf(p.acc, a))
             i == SumBy(Chosen, LAMBDA p : p.cur = c /\ p.acc = a)
             ks == {k \in 1..Len(A.val) : A.val[k].acc = a}
             e == A.val[CHOOSE k \in ks : TRUE]
         IN IF ks = {} THEN DIsZero(t) /\ DIsZero(i)
            ELSE /\ Cardinality(ks) = 1
                 /\ IF DIsZero(i) THEN ~Has(e.item) ELSE Has(e.item) /\ DEq(The(e.item).u, i)
                 /\ Has(e.total) => DEq(The(e.total).u, t)
                 /\ ~Has(e.total) => DEq(t, i)
\* a bad date is told, and so is a booking method which can't be shown; everything else is answered
Answerable == Answered /\ A.kind \in {"bad date", "unsupported booking"} =>
                IF A.kind = "bad date" THEN ~FiltersOk ELSE \E a \in AccsOf(Chosen) : ~Supported(a)
\* date filters divide the postings between them
Divided ==
  \A k \in 1..Len(query.fs) :
    LET f == query.fs[k] IN
    f.f \in {"date<", "date<=", "date>", "date>="} /\ FilterOk(f) =>
      \A i \in 1..Len(Postings) :
        LET p == Postings[i] IN
        /\ Selects([f EXCEPT !.f = "date<"], p) = ~Selects([f EXCEPT !.f = "date>="], p)
        /\ Selects([f EXCEPT !.f = "date<="], p) = ~Selects([f EXCEPT !.f = "date>"], p)
=============================================================================
