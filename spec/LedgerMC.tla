------------------------------ MODULE LedgerMC ------------------------------
(* Exhaustive exploration of Ledger over a small universe of directives:    *)
(* every sequence of at most Depth of them, after some which set the scene. *)
(* The invariants and action properties are what users rely on, stated      *)
(* without reference to how booking works.  Each complete behaviour is      *)
(* printed, to be replayed against the real server (see LedgerTrace).       *)
EXTENDS Ledger, Json, IOUtils

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
Universe == Theme.universe
Scene == Theme.scene
Depth == Theme.depth
Optss == Theme.opts             \* the sets of options to explore

VARIABLES hist, o
mvars == <<hist, o>>

MInit == \E k \in 1..Len(Optss) : o = k /\ hist = <<>> /\ Start(Optss[k])

Setting == /\ n < Len(Scene)
           /\ Step(Scene[n + 1])
           /\ UNCHANGED mvars
Choose(k) == /\ n >= Len(Scene) /\ Len(hist) < Depth
             /\ Step(Universe[k])
             /\ hist' = Append(hist, k)
             /\ Len(hist') = Depth => PrintT(<<"B", o, hist'>>)
             /\ UNCHANGED o
MNext == Setting \/ \E k \in 1..Len(Universe) : Choose(k)
MSpec == MInit /\ [][MNext]_<<vars, mvars>>

Given(i) == IF i < Len(Scene) THEN Scene[i + 1] ELSE Universe[hist[i - Len(Scene) + 1]]

(*************************** what users rely on ****************************)
UserTxns == {k \in 1..Len(out) : out[k].kind = "txn" /\ out[k].flag # PadFlag}
PadTxns == {k \in 1..Len(out) : out[k].kind = "txn" /\ out[k].flag = PadFlag}

\* the weight of a booked posting: what it counts for in the balance
Weight1(raw, p) ==
  IF p.booked THEN Extend(p.units, The(p.cost).per)
  ELSE LET s == IF Has(p.cost) THEN p.cost ELSE p.price
           r == IF Has(p.cost) THEN raw.cost ELSE raw.price
       IN IF ~Has(s) THEN p.units
          ELSE IF Has(The(r).per) /\ ~Has(The(r).total) THEN Extend(p.units, The(s).per)
          ELSE IF Has(p.cost) THEN The(s).total ELSE The(The(s).total)
Cur1(p) == IF Has(p.cost) THEN The(p.cost).cur ELSE IF Has(p.price) THEN The(p.price).cur ELSE p.cur

\* units which were worked out from a cost or price are rounded
Rounded(raw, p) == ~Has(raw.units) /\ (Has(p.cost) \/ Has(p.price))
Slack1(raw, p) ==
  IF Rounded(raw, p)
  THEN DMul(DAdd(DNew(1, 0), DAbs(IF Has(p.cost) THEN The(p.cost).per ELSE The(p.price).per)), DNew(5, p.units.s + 1))
  ELSE DZero

\* C01: what is committed balances, currency by currency
TxnsBalance ==
  \A k \in UserTxns :
    LET t == out[k]
        C == {Cur1(t.ps[j]) : j \in 1..Len(t.ps)}
        ws(c) == LET s == SelectSeq(t.ps, LAMBDA p : Cur1(p) = c)
                 IN [j \in 1..Len(s) |-> Weight1(Given(t.idx).ps[The(s[j].idx) + 1], s[j])]
        slack == SumDec([j \in 1..Len(t.ps) |-> Slack1(Given(t.idx).ps[The(t.ps[j].idx) + 1], t.ps[j])])
    IN odd \/ \A c \in C : \/ ~Has(Residual(Tol, ws(c), c))
                           \/ DLe(DAbs(SumDec(ws(c))), slack)
PadsBalance == \A k \in PadTxns : LET p == out[k].ps IN
                 p = <<>> \/ (Len(p) = 2 /\ p[1].cur = p[2].cur /\ DIsZero(DAdd(p[1].units, p[2].units)))

\* C02: nothing is left out of a booked posting, nothing given is changed
Complete ==
  \A k \in UserTxns : \A j \in 1..Len(out[k].ps) :
    LET p == out[k].ps[j]
        raw == Given(out[k].idx).ps[The(p.idx) + 1]
    IN /\ p.acc = raw.acc
       /\ Has(raw.cur) => p.cur = The(raw.cur)
       /\ (Has(raw.units) /\ ~p.booked) => DSame(p.units, The(raw.units))
       /\ Has(raw.cost) <=> Has(p.cost)
       /\ p.booked => Opposite(p.units, p.units) \/ DSign(p.units) = DSign(The(raw.units)) \/ odd
\* what is split over several lots adds up
SplitsAddUp ==
  \A k \in UserTxns : LET t == out[k] IN
    \A i \in 1..Len(Given(t.idx).ps) :
      LET s == SelectSeq(t.ps, LAMBDA p : p.idx = <<i - 1>>)
          raw == Given(t.idx).ps[i]
      IN /\ s # <<>>
         /\ (s[1].booked /\ ~odd) => ~Has(Residual(Tol, [j \in 1..Len(s) |-> s[j].units] \o <<DNeg(The(raw.units))>>, s[1].cur))

\* C03, C04: lifecycle and currencies
Disjoint == DOMAIN opened \cap DOMAIN closed = {}
OnceOnly == \A a \in DOMAIN opened \cup DOMAIN closed :
              Cardinality({k \in 1..Len(out) : out[k].kind = "open" /\ out[k].body[1] = a}) = 1
UsedWhileOpen ==
  \A k \in 1..Len(out) : out[k].kind = "txn" => \A j \in 1..Len(out[k].ps) :
    LET a == out[k].ps[j].acc
    IN /\ \E i \in 1..(k - 1) : out[i].kind = "open" /\ out[i].body[1] = a
       /\ ~\E i \in 1..(k - 1) : out[i].kind = "close" /\ out[i].body[1] = a
       /\ Accepts(a, out[k].ps[j].cur)

\* C05, C06: what accounts hold is what was posted to them, but for failed balances
AllPs == FlattenSeq([k \in 1..Len(out) |-> out[k].ps])
Posted(a, c) == LET s == SelectSeq(AllPs, LAMBDA p : p.acc = a /\ p.cur = c)
                IN SumDec([j \in 1..Len(s) |-> s[j].units])
CursOf(a) == {inv[a][j].cur : j \in 1..Len(inv[a])} \cup {AllPs[j].cur : j \in {i \in 1..Len(AllPs) : AllPs[i].acc = a}}
Conserved == (errs = <<>> /\ ~odd) => \A a \in DOMAIN inv : \A c \in CursOf(a) : DEq(Posted(a, c), UnitsOf(inv[a], c))
\* with no error so far, every balance assertion holds of what was posted before it
BalancesHold ==
  (errs = <<>> /\ pads = <<>>) => \A k \in 1..Len(out) : out[k].kind = "balance" =>
    LET d == Given(out[k].idx)
        before == SelectSeq(FlattenSeq([j \in 1..(k - 1) |-> out[j].ps]),
                            LAMBDA p : p.cur = d.cur /\ IsSubOf(p.acc, d.acc))
    IN DLe(DAbs(DSub(d.units, SumDec([j \in 1..Len(before) |-> before[j].units]))), BalanceTol(d))
       \/ \E j \in (k + 1)..Len(out) : out[j].kind = "balance"    \* a later one may be met by a pad before this one

\* C07: lots.  Those held are those bought less those sold, lot by lot.
LotsConserved ==
  (errs = <<>> /\ ~odd) => \A a \in DOMAIN inv : Method(a) # "none" =>
    \A j \in 1..Len(inv[a]) : Has(inv[a][j].cost) =>
      LET c == The(inv[a][j].cost)
          s == SelectSeq(AllPs, LAMBDA p : p.acc = a /\ p.cur = inv[a][j].cur /\ Has(p.cost) /\ SameCost(The(p.cost), c))
      IN DEq(inv[a][j].units, SumDec([i \in 1..Len(s) |-> s[i].units]))
\* the lots of one posting are taken in the order of the method
InOrder ==
  \A k \in UserTxns : LET t == out[k] IN
    odd \/ \A i \in 1..(Len(t.ps) - 1) :
      (t.ps[i].idx = t.ps[i + 1].idx /\ t.ps[i].booked) =>
        LET c == The(t.ps[i].cost)
            d == The(t.ps[i + 1].cost)
            all == \A a \in DOMAIN inv : TRUE
        IN CASE Method(t.ps[i].acc) \in {"fifo", "strict", "strict-with-size"} -> c.date <= d.date
             [] Method(t.ps[i].acc) = "lifo" -> TRUE
             [] OTHER -> all

\* C08, C09: every directive is either booked or reported, in order
Accounted ==
  \A i \in 0..(n - 1) :
    \/ \E k \in 1..Len(out) : out[k].idx = i
    \/ \E k \in 1..Len(errs) : errs[k].idx[1] = i \/ \E j \in 1..Len(errs[k].rel) : errs[k].rel[j] = <<i>>
    \/ \E k \in 1..Len(errs) : Given(i).kind = "balance"          \* its pad is reported
Ordered == \A k \in 1..(Len(out) - 1) : out[k].idx <= out[k + 1].idx
Twice == \A j, k \in 1..Len(out) : (j < k /\ out[j].idx = out[k].idx) => (k = j + 1 /\ out[j].kind = "pad" /\ out[k].flag = PadFlag)
Verbatim == \A k \in 1..Len(out) :
              out[k].kind # "txn" => out[k].body = Given(out[k].idx).body /\ out[k].kind = Given(out[k].idx).kind
WithinInput == \A k \in 1..Len(errs) : /\ errs[k].any # {}
                                       /\ errs[k].idx[1] < n
                                       /\ \A j \in 1..Len(errs[k].rel) : errs[k].rel[j][1] < n

\* C09: a directive which fails leaves no trace but its error, except that a
\* failed balance sets the account to what was asserted, and uses up the pad
Isolated ==
  [][ Len(errs') > Len(errs) /\ n >= Len(Scene) =>
        LET d == Universe[hist'[Len(hist')]]
        IN /\ d.kind \in {"txn", "open", "close"} => UNCHANGED <<opened, closed, acct, inv, pads, win, out>>
           /\ d.kind \in {"pad", "balance"} => UNCHANGED <<opened, closed, acct>> ]_<<vars, mvars>>
\* history is never rewritten, except that a pad is filled in
OnlyGrows ==
  [][ /\ Len(out') >= Len(out)
      /\ \A k \in 1..Len(out) : out'[k] = out[k] \/ (k \in PadTxns /\ out[k].ps = <<>>)
      /\ Len(errs') >= Len(errs) /\ SubSeq(errs', 1, Len(errs)) = errs ]_<<vars, mvars>>
=============================================================================
