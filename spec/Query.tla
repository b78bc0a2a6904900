------------------------------- MODULE Query -------------------------------
(* Queries of booked directives: inventories, balances, income statements,  *)
(* journals and rollups, of the postings which the filters select.          *)
(* A query is [fn, fs]: which, and its filters.  Directives are             *)
(*  [k |-> "open", acc, booking] and                                        *)
(*  [k |-> "txn", date, payee, narration, ps], with ps of                   *)
(*  [acc, flag, u, cur, cost], cost of [date, cur, per, label, merge];      *)
(* what may be missing is <<>> or <<it>>.  Dates are [n, s]: a number such  *)
(* as 20240131, and as written.  Options are [booking, names].              *)
(* Postings are read one by one, in order; the answer is given at the end.  *)
EXTENDS Dec, Text, Sequences, FiniteSets

VARIABLES dirs, opts, query,    \* what is asked
          read,                 \* postings read so far
          held,                 \* account -> sequence of positions, in order
          log,                  \* entries of the journal
          answer                \* <<>>, then <<[kind, ...]>>
qvars == <<dirs, opts, query, read, held, log, answer>>

Has(x) == x # <<>>
The(x) == x[1]

\* the scale of a sum is the larger one
JAdd(a, b) == DRescale(DAdd(a, b), PMaxI(a.s, b.s))

(******************************** filters **********************************)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysOf(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31
\* a date is given as year, as year and month, or in full
Full(a) == <<a[1], IF Len(a) > 1 THEN a[2] ELSE 1, IF Len(a) > 2 THEN a[3] ELSE 1>>
IsDate(a) == LET d == Full(a) IN d[2] \in 1..12 /\ d[3] \in 1..DaysOf(d[1], d[2])
DayNo(a) == LET d == Full(a) IN d[1] * 10000 + d[2] * 100 + d[3]

\* a pattern is a literal text, which may be asked for at the beginning or at the end
Found(p, s) ==
  IF Len(p.lit) > Len(s) THEN FALSE
  ELSE IF p.from /\ p.to THEN s = p.lit
  ELSE IF p.from THEN SubSeq(s, 1, Len(p.lit)) = p.lit
  ELSE IF p.to THEN SubSeq(s, Len(s) - Len(p.lit) + 1, Len(s)) = p.lit
  ELSE \E i \in 0..(Len(s) - Len(p.lit)) : SubSeq(s, i + 1, i + Len(p.lit)) = p.lit

RECURSIVE FilterOk(_), Selects(_, _)
FilterOk(f) ==
  CASE f.f \in {"date<", "date<=", "date>", "date>="} -> IsDate(f.a)
    [] f.f = "date>=<" -> IsDate(f.a) /\ IsDate(f.b)
    [] f.f \in {"every-f", "some-f", "none-f"} -> \A k \in 1..Len(f.fs) : FilterOk(f.fs[k])
    [] OTHER -> TRUE
Selects(f, p) ==
  CASE f.f = "date<" -> p.date.n < DayNo(f.a)
    [] f.f = "date<=" -> p.date.n <= DayNo(f.a)
    [] f.f = "date>" -> p.date.n > DayNo(f.a)
    [] f.f = "date>=" -> p.date.n >= DayNo(f.a)
    [] f.f = "date>=<" -> p.date.n >= DayNo(f.a) /\ p.date.n < DayNo(f.b)
    [] f.f = "acc" -> \E k \in 1..Len(f.names) : p.acc = f.names[k]
    [] f.f = "sub-acc" -> \E k \in 1..Len(f.names) : IsSubOf(p.acc, f.names[k])
    [] f.f = "cur" -> p.cur = f.name
    [] f.f = "payee-match" -> Has(p.payee) /\ Found(f.re, The(p.payee))
    [] f.f = "narration-match" -> Has(p.narration) /\ Found(f.re, The(p.narration))
    [] f.f = "every-f" -> \A k \in 1..Len(f.fs) : Selects(f.fs[k], p)
    [] f.f = "some-f" -> \E k \in 1..Len(f.fs) : Selects(f.fs[k], p)
    [] f.f = "none-f" -> ~\E k \in 1..Len(f.fs) : Selects(f.fs[k], p)

\* balances and income statements are inventories of the accounts of two of the types
Types == CASE query.fn = "balances" -> <<opts.names.assets, opts.names.liabilities>>
           [] query.fn = "income-statement" -> <<opts.names.income, opts.names.expenses>>
           [] OTHER -> <<>>
Selected(p) == /\ \A k \in 1..Len(query.fs) : Selects(query.fs[k], p)
               /\ Len(Types) > 0 => \E k \in 1..2 : IsSubOf(p.acc, Types[k])
FiltersOk == \A k \in 1..Len(query.fs) : FilterOk(query.fs[k])

(******************************** postings *********************************)
RECURSIVE PostingsFrom(_, _)
PostingsFrom(ds, k) ==
  IF k > Len(ds) THEN <<>>
  ELSE LET d == ds[k] IN
       (IF d.k # "txn" THEN <<>>
        ELSE [j \in 1..Len(d.ps) |->
                LET p == d.ps[j] IN
                [date |-> d.date, payee |-> d.payee, narration |-> d.narration,
                 acc |-> p.acc, flag |-> p.flag, u |-> p.u, cur |-> p.cur, cost |-> p.cost]])
       \o PostingsFrom(ds, k + 1)
Postings == PostingsFrom(dirs, 1)

\* the booking method of an account: that of the last opening to give one, else the default
BookingOf(acc) ==
  LET o == SelectSeq(dirs, LAMBDA d : d.k = "open" /\ d.acc = acc /\ Has(d.booking))
  IN IF Len(o) > 0 THEN The(o[Len(o)].booking) ELSE IF Has(opts.booking) THEN The(opts.booking) ELSE "strict"
Merging == {"strict", "strict-with-size", "fifo", "lifo", "hifo"}
Supported(acc) == BookingOf(acc) \in Merging \cup {"none"}

(******************************** positions ********************************)
\* order of what may be missing: that comes first
OptLess(a, b, Less(_, _)) == Has(b) /\ (~Has(a) \/ Less(The(a), The(b)))
SameCost(a, b) == IF ~Has(a) \/ ~Has(b) THEN a = b
                  ELSE LET x == The(a) y == The(b)
                       IN x.date = y.date /\ x.cur = y.cur /\ DEq(x.per, y.per) /\ x.label = y.label /\ x.merge = y.merge
CostLess(a, b) ==
  OptLess(a, b, LAMBDA x, y :
    IF x.date # y.date THEN x.date.n < y.date.n
    ELSE IF x.cur # y.cur THEN TLess(x.cur, y.cur)
    ELSE IF ~DEq(x.per, y.per) THEN DLt(x.per, y.per)
    ELSE IF x.label # y.label THEN OptLess(x.label, y.label, TLess)
    ELSE OptLess(x.merge, y.merge, LAMBDA v, w : ~v /\ w))
Same(p, q) == p.cur = q.cur /\ SameCost(p.cost, q.cost)
Before(p, q) == IF p.cur # q.cur THEN TLess(p.cur, q.cur) ELSE CostLess(p.cost, q.cost)

Add(ps, k, u) == [ps EXCEPT ![k].u = JAdd(ps[k].u, u)]
Insert(ps, p, k) == SubSeq(ps, 1, k) \o <<p>> \o SubSeq(ps, k + 1, Len(ps))
\* positions of the same cost are merged; in accounts without booking, only those without cost
Hold(ps, p, merging) ==
  LET j == {k \in 1..Len(ps) : Same(ps[k], p)}
  IN IF j # {} /\ (merging \/ ~Has(p.cost)) THEN Add(ps, CHOOSE k \in j : TRUE, p.u)
     ELSE Insert(ps, p, Cardinality({k \in 1..Len(ps) :
            IF merging THEN Before(ps[k], p)
            ELSE \/ ps[k].cur # p.cur /\ TLess(ps[k].cur, p.cur)
                 \/ ps[k].cur = p.cur /\ Has(p.cost)}))
HeldBy(acc) == IF acc \in DOMAIN held THEN held[acc] ELSE <<>>
NonZero(ps) == SelectSeq(ps, LAMBDA p : ~DIsZero(p.u))

(********************************* answers *********************************)
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : TLess(x, y) IN <<x>> \o SortedSeq(S \ {x})

InventoryAccs == {a \in DOMAIN held : NonZero(held[a]) # <<>>}
Inventory == LET as == SortedSeq(InventoryAccs) IN [k \in 1..Len(as) |-> [acc |-> as[k], ps |-> NonZero(held[as[k]])]]

RECURSIVE SumOf(_, _)
SumOf(ps, c) == IF ps = <<>> THEN DNew(0, 0)
                ELSE LET r == SumOf(SubSeq(ps, 1, Len(ps) - 1), c) p == ps[Len(ps)]
                     IN IF p.cur = c THEN JAdd(r, p.u) ELSE r
\* the currencies which most accounts have a position in
CursOf(a) == {NonZero(held[a])[k].cur : k \in 1..Len(NonZero(held[a]))}
UsersOf(c) == Cardinality({a \in InventoryAccs : c \in CursOf(a)})
Curs == UNION {CursOf(a) : a \in InventoryAccs}
Primary == {c \in Curs : \A d \in Curs : UsersOf(d) <= UsersOf(c)}

RECURSIVE Colons(_), Parents(_)
Colons(s) == IF s = "" THEN 0 ELSE (IF SubSeq(s, 1, 1) = ":" THEN 1 ELSE 0) + Colons(SubSeq(s, 2, Len(s)))
Parents(s) == {SubSeq(s, 1, k - 1) : k \in {k \in 2..Len(s) : SubSeq(s, k, k) = ":"}} \cup {s}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A n \in S : n <= m
\* what each account holds of a currency, and what it holds with its sub-accounts unless that is the same
Rollup(c) ==
  LET items == {a \in InventoryAccs : ~DIsZero(SumOf(NonZero(held[a]), c))}
      item(a) == SumOf(NonZero(held[a]), c)
      depth == Max0({Colons(a) : a \in items})
      as == SortedSeq(UNION {Parents(a) : a \in items})
      RECURSIVE Total(_, _)
      Total(k, a) == IF k = 0 THEN DNew(0, 0)
                     ELSE IF as[k] \in items /\ IsSubOf(as[k], a) THEN JAdd(Total(k - 1, a), item(as[k])) ELSE Total(k - 1, a)
      entry(a) == [acc |-> a,
                   item |-> IF a \in items THEN <<[u |-> item(a), at |-> depth]>> ELSE <<>>,
                   total |-> IF a \in items /\ DEq(item(a), Total(Len(as), a)) THEN <<>>
                             ELSE <<[u |-> Total(Len(as), a), at |-> Colons(a)]>>]
  IN [k \in 1..Len(as) |-> entry(as[k])]

\* the running balance: units only, over all accounts
Simple(ps) == NonZero(ps)
Entry(p) == LET b == Hold(HeldBy("*"), [u |-> p.u, cur |-> p.cur, cost |-> <<>>], FALSE)
            IN [date |-> p.date, acc |-> p.acc, payee |-> p.payee, narration |-> p.narration, flag |-> p.flag,
                u |-> p.u, cur |-> p.cur, bal |-> Simple(b)]

(********************************** state **********************************)
Begin(ds, o, q) ==
  /\ dirs = ds /\ opts = o /\ query = q
  /\ read = 0 /\ held = << >> /\ log = <<>> /\ answer = <<>>

Open == ~Has(answer)
BadFilter == /\ Open /\ ~FiltersOk
             /\ answer' = <<[kind |-> "bad date"]>>
             /\ UNCHANGED <<dirs, opts, query, read, held, log>>

Next1 == Postings[read + 1]
Reading == Open /\ FiltersOk /\ read < Len(Postings)
Skip == /\ Reading /\ ~Selected(Next1)
        /\ read' = read + 1
        /\ UNCHANGED <<dirs, opts, query, held, log, answer>>
Put(a, ps) == held' = [x \in DOMAIN held \cup {a} |-> IF x = a THEN ps ELSE held[x]]
Accumulate ==
  /\ Reading /\ Selected(Next1) /\ query.fn # "journal" /\ Supported(Next1.acc)
  /\ LET p == Next1 IN Put(p.acc, Hold(HeldBy(p.acc), [u |-> p.u, cur |-> p.cur, cost |-> p.cost], BookingOf(p.acc) \in Merging))
  /\ read' = read + 1
  /\ UNCHANGED <<dirs, opts, query, log, answer>>
Unsupported ==
  /\ Reading /\ Selected(Next1) /\ query.fn # "journal" /\ ~Supported(Next1.acc)
  /\ answer' = <<[kind |-> "unsupported booking"]>>
  /\ UNCHANGED <<dirs, opts, query, read, held, log>>
Enter ==
  /\ Reading /\ Selected(Next1) /\ query.fn = "journal"
  /\ LET p == Next1 IN /\ log' = Append(log, Entry(p))
                       /\ Put("*", Hold(HeldBy("*"), [u |-> p.u, cur |-> p.cur, cost |-> <<>>], FALSE))
  /\ read' = read + 1
  /\ UNCHANGED <<dirs, opts, query, answer>>
\* a rollup is of the currency which most accounts have; of any of these if there are several
Answers ==
  CASE query.fn = "journal" -> {[kind |-> "journal", val |-> log]}
    [] query.fn = "rollup" -> {[kind |-> "rollup", val |-> Rollup(c)] : c \in IF Curs = {} THEN {""} ELSE Primary}
    [] OTHER -> {[kind |-> "inventory", val |-> Inventory]}
Answer ==
  /\ Open /\ FiltersOk /\ read = Len(Postings)
  /\ \E a \in Answers : answer' = <<a>>
  /\ UNCHANGED <<dirs, opts, query, read, held, log>>
QNext == BadFilter \/ Skip \/ Accumulate \/ Unsupported \/ Enter \/ Answer
Answered == Has(answer)

(********************************* display *********************************)
\* as a cell, to be tabulated
CEmpty == [t |-> "empty"]
CText(s) == [t |-> "aligned", s |-> s, al |-> "left"]
COpt(x) == IF Has(x) THEN CText(The(x)) ELSE CEmpty
RECURSIVE PointAt(_, _)
PointAt(s, k) == IF k > Len(s) THEN Len(s) ELSE IF SubSeq(s, k, k) = "." THEN k - 1 ELSE PointAt(s, k + 1)
CNum(d) == LET s == DStr(d) IN [t |-> "anchored", s |-> s, at |-> PointAt(s, 1) - 1]
CRow(cs, g) == [t |-> "row", cells |-> cs, gut |-> g]
CStack(cs) == [t |-> "stack", cells |-> cs]
CVec(cs) == CASE Len(cs) = 0 -> CEmpty [] Len(cs) = 1 -> cs[1] [] OTHER -> CStack(cs)
CCost(c) == CRow(<<CText(c.date.s), CText(c.cur), CNum(c.per), COpt(c.label),
                   IF Has(c.merge) /\ The(c.merge) THEN CText("*") ELSE CEmpty>>, " ")
CPos(p) == CRow(<<CRow(<<CNum(p.u), CText(p.cur)>>, " ")>> \o (IF Has(p.cost) THEN <<CCost(The(p.cost))>> ELSE <<>>), "  ")
CPositions(ps) == CVec([k \in 1..Len(ps) |-> CPos(ps[k])])
Blanks(n) == [k \in 1..n |-> CEmpty]
CEntry(e) ==
  LET t == IF Has(e.total) THEN Blanks(The(e.total).at) \o <<CNum(The(e.total).u)>> ELSE <<>>
      i == IF Has(e.item) THEN Blanks(The(e.item).at - Len(t)) \o <<CNum(The(e.item).u)>> ELSE <<>>
  IN CRow(t \o i, "  ")
Cell(a) ==
  CASE a.kind = "inventory" -> CStack([k \in 1..Len(a.val) |-> CRow(<<CText(a.val[k].acc), CPositions(a.val[k].ps)>>, "  ")])
    [] a.kind = "rollup" -> CStack([k \in 1..Len(a.val) |-> CRow(<<CText(a.val[k].acc), CEntry(a.val[k])>>, "  ")])
    [] a.kind = "journal" ->
         CVec([k \in 1..Len(a.val) |-> LET e == a.val[k] IN
                 CRow(<<CText(e.date.s), CText(e.acc), COpt(e.payee), COpt(e.narration), COpt(e.flag),
                        CNum(e.u), CText(e.cur), CPositions(e.bal)>>, "  ")])
=============================================================================
