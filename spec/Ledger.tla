------------------------------- MODULE Ledger -------------------------------
(* The ledger which booking builds, directive by directive.                 *)
(*                                                                          *)
(* A directive: [kind, date, tags, links, meta, body, and by kind           *)
(*   open:    acc, curs (sequence), booking (optional)                      *)
(*   close:   acc                                                           *)
(*   pad:     acc, source                                                   *)
(*   balance: acc, units, cur, tol (optional)                               *)
(*   txn:     flag, payee, narration, ps]                                   *)
(* body holds whatever the user wrote, which booking only passes on.        *)
EXTENDS Booking

VARIABLES
  opts,     \* [booking, mult, dflt, fb]: the options which matter to booking
  n,        \* how many directives have been booked or rejected
  opened,   \* account -> index of the directive which opened it, while open
  closed,   \* account -> index of the directive which closed it
  acct,     \* account ever opened -> [curs, method, idx]
  inv,      \* account ever opened -> its positions
  pads,     \* account -> [at, idx] of its pad directive not yet used
  win,      \* account -> <<from, to>>: part of out since its last balance
  out,      \* the booked directives
  errs,     \* the errors, each [any, idx, rel, rows]; any is a set of which
            \* one message is reported
  odd       \* a behaviour of the booking library outside this specification
            \* may have occurred
vars == <<opts, n, opened, closed, acct, inv, pads, win, out, errs, odd>>

NoOpts == [booking |-> None, mult |-> None, dflt |-> <<>>, fb |-> None]
PadFlag == "'P"

Start(o) ==
  /\ opts = o /\ n = 0 /\ odd = FALSE
  /\ opened = <<>> /\ closed = <<>> /\ acct = <<>> /\ inv = <<>>
  /\ pads = <<>> /\ win = <<>> /\ out = <<>> /\ errs = <<>>

Restart(o) ==
  /\ opts' = o /\ n' = 0 /\ odd' = FALSE
  /\ opened' = <<>> /\ closed' = <<>> /\ acct' = <<>> /\ inv' = <<>>
  /\ pads' = <<>> /\ win' = <<>> /\ out' = <<>> /\ errs' = <<>>

(****************************** order of a file ****************************)
Rank(k) == IF k = "open" THEN 0 ELSE IF k = "balance" THEN 1 ELSE 2
DirLess(a, b) == \/ a.d.date < b.d.date
                 \/ a.d.date = b.d.date /\ Rank(a.d.kind) < Rank(b.d.kind)
                 \/ a.d.date = b.d.date /\ Rank(a.d.kind) = Rank(b.d.kind) /\ a.i < b.i
\* directives of a file are booked by date; within a day those which open
\* accounts come first, then balance assertions, otherwise as written
FileOrder(ds) ==
  LET t == SortSeq([i \in 1..Len(ds) |-> [i |-> i, d |-> ds[i]]], DirLess)
  IN [i \in 1..Len(t) |-> t[i].d]

(****************************** helpers ************************************)
Supported == {"strict", "strict-with-size", "none", "fifo", "lifo", "hifo"}
OrStrict(m) == IF m \in Supported THEN m ELSE "strict"
Default == IF Has(opts.booking) THEN OrStrict(The(opts.booking)) ELSE "strict"
Method(acc) == IF acc \in DOMAIN acct THEN acct[acc].method ELSE Default
Tol == [mult |-> opts.mult, dflt |-> opts.dflt, fb |-> opts.fb]

IsOpen(acc) == acc \in DOMAIN opened
Accepts(acc, cur) == acct[acc].curs = {} \/ cur \in acct[acc].curs
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Error(msgs, idx, rel, rows) == [any |-> msgs, idx |-> idx, rel |-> rel, rows |-> rows]
Err1(text, idx, rel) == Error({Msg(text)}, idx, rel, <<>>)

\* what is wrong with using an account and currency, if anything
NotOpen(acc, idx) ==
  IF IsOpen(acc) THEN None
  ELSE IF acc \in DOMAIN closed
       THEN Some(Err1("account was closed", idx, <<<<closed[acc]>>>>))
       ELSE Some(Err1("account not open", idx, <<>>))
BadCur(acc, cur, idx) ==
  IF Accepts(acc, cur) THEN None
  ELSE Some(Err1("currency incompatible with account", idx, <<<<acct[acc].idx>>>>))
BadUse(acc, cur, idx) ==
  IF Has(NotOpen(acc, idx)) THEN NotOpen(acc, idx) ELSE BadCur(acc, cur, idx)

Common(d) == [idx |-> n, kind |-> d.kind, date |-> d.date, tags |-> d.tags,
              links |-> d.links, meta |-> d.meta, body |-> d.body,
              flag |-> "", payee |-> None, narration |-> None, ps |-> <<>>]

Reject(e) == /\ errs' = Append(errs, e)
             /\ UNCHANGED <<opened, closed, acct, inv, pads, win, out>>
Advance == n' = n + 1 /\ UNCHANGED opts

(****************************** open, close ********************************)
Open(d) ==
  /\ d.kind = "open" /\ Advance /\ UNCHANGED odd
  /\ IF IsOpen(d.acc)
     THEN Reject(Err1("account already opened", <<n>>, <<<<opened[d.acc]>>>>))
     ELSE IF d.acc \in DOMAIN closed
     THEN Reject(Err1("account was closed", <<n>>, <<<<closed[d.acc]>>>>))
     ELSE /\ opened' = (d.acc :> n) @@ opened
          /\ acct' = (d.acc :> [curs |-> Seq2Set(d.curs), idx |-> n,
                        method |-> IF Has(d.booking) THEN OrStrict(The(d.booking)) ELSE Default]) @@ acct
          /\ inv' = (d.acc :> <<>>) @@ inv
          /\ out' = Append(out, Common(d))
          /\ UNCHANGED <<closed, pads, win, errs>>

Close(d) ==
  /\ d.kind = "close" /\ Advance /\ UNCHANGED odd
  /\ IF ~IsOpen(d.acc)
     THEN Reject(Err1("account not open", <<n>>, <<>>))
     ELSE /\ opened' = Drop(opened, d.acc)
          /\ closed' = (d.acc :> n) @@ closed
          /\ out' = Append(out, Common(d))
          /\ UNCHANGED <<acct, inv, pads, win, errs>>

(****************************** transaction ********************************)
\* the booked postings of one posting: one for each lot
Booked(d, x) ==
  LET p == d.ps[x.i]
      base == [idx |-> Some(x.i - 1), acc |-> p.acc, units |-> x.units, cur |-> x.cur,
               cost |-> None, price |-> x.price, flag |-> p.flag, tags |-> p.tags,
               links |-> p.links, meta |-> p.meta, booked |-> x.booked]
  IN IF x.lots = <<>> THEN <<base>>
     ELSE [k \in 1..Len(x.lots) |->
            [base EXCEPT !.units = x.lots[k].units, !.price = None,
               !.cost = Some([date |-> x.lots[k].date, per |-> x.lots[k].per,
                              total |-> x.lots[k].total, cur |-> x.ccur,
                              label |-> x.lots[k].label, merge |-> x.lots[k].merge])]]

Txn(d) ==
  /\ d.kind = "txn" /\ Advance
  /\ LET b == Book(d.date, d.ps, Tol, Method, inv)
         use == [i \in 1..Len(b.done) |-> BadUse(d.ps[i].acc, b.done[i].cur, <<n, i - 1>>)]
         bad == SelectSeq(use, Has)
     IN /\ odd' = (odd \/ b.odd)
        /\ IF b.errs # {} THEN Reject(Error(b.errs, <<n>>, <<>>, <<>>))
           ELSE IF bad # <<>> THEN Reject(The(bad[1]))
           ELSE /\ inv' = b.inv
                /\ out' = Append(out, [Common(d) EXCEPT !.flag = d.flag, !.payee = d.payee,
                     !.narration = d.narration,
                     !.ps = FlattenSeq([i \in 1..Len(b.done) |-> Booked(d, b.done[i])])])
                /\ UNCHANGED <<opened, closed, acct, pads, win, errs>>

(****************************** balance, pad *******************************)
\* units of a currency in an account and its sub-accounts, open or closed
Rollup(i, acc, cur) ==
  LET S == SetToSeq({a \in DOMAIN i : IsSubOf(a, acc)})
  IN SumDec([k \in 1..Len(S) |-> UnitsOf(i[S[k]], cur)])

BalanceTol(d) ==
  IF Has(d.tol) THEN The(d.tol)
  ELSE IF d.units.s > 0 THEN DMul(DMul(DNew(1, d.units.s), Multiplier(Tol)), DNew(2, 0))
  ELSE DZero

Adjust(i, acc, cur, units) ==
  [i EXCEPT ![acc] = Accumulate(@, [units |-> units, cur |-> cur, cost |-> None], "strict")]

\* the postings to an account and its sub-accounts in part of out
WindowRows(w, acc, cur) ==
  FlattenSeq([k \in 1..(w[2] - w[1]) |->
    LET t == out[w[1] + k]
        own == SelectSeq(t.ps, LAMBDA p : p.cur = cur /\ IsSubOf(p.acc, acc))
    IN [j \in 1..Len(own) |->
         [date |-> t.date, acc |-> own[j].acc, units |-> own[j].units,
          desc |-> OrElse(t.payee, t.narration)]]])

\* the diagnostics of a failed balance: those postings with a running total
Diagnostics(w, d, actual) ==
  LET rows == WindowRows(w, d.acc, d.cur)
      sums(k) == SumDec([j \in 1..k |-> rows[j].units])
      before == DSub(actual, sums(Len(rows)))
      many == Cardinality({rows[k].acc : k \in 1..Len(rows)}) > 1
  IN [k \in 1..Len(rows) |->
       [date |-> rows[k].date,
        acc |-> IF many THEN Below(rows[k].acc, d.acc) ELSE "",
        units |-> rows[k].units, total |-> DAdd(before, sums(k)),
        desc |-> IF Has(rows[k].desc) THEN The(rows[k].desc) ELSE ""]]

PadPosting(acc, units, cur) ==
  [idx |-> None, acc |-> acc, units |-> units, cur |-> cur, cost |-> None, price |-> None,
   flag |-> Some(PadFlag), tags |-> <<>>, links |-> <<>>, meta |-> <<>>, booked |-> FALSE]

Balance(d) ==
  /\ d.kind = "balance" /\ Advance /\ UNCHANGED odd
  /\ LET bad == BadUse(d.acc, d.cur, <<n>>)
         actual == Rollup(inv, d.acc, d.cur)
         margin == DSub(d.units, actual)
         off == DLt(BalanceTol(d), DAbs(margin))
         w == <<IF d.acc \in DOMAIN win THEN win[d.acc][2] ELSE 0, Len(out)>>
         pad == IF d.acc \in DOMAIN pads THEN Some(pads[d.acc]) ELSE None
         inv1 == Adjust(inv, d.acc, d.cur, margin)
     IN IF Has(bad) THEN Reject(The(bad))
        ELSE
        /\ win' = (d.acc :> w) @@ win
        /\ pads' = Drop(pads, d.acc)
        /\ UNCHANGED <<opened, closed, acct>>
        /\ IF ~off
           THEN /\ errs' = IF Has(pad)
                           THEN Append(errs, Err1("unused, no balance adjustment required", <<The(pad).idx>>, <<>>))
                           ELSE errs
                /\ out' = Append(out, Common(d))
                /\ UNCHANGED inv
           ELSE IF ~Has(pad)
           THEN /\ errs' = Append(errs,
                     Error({[Msg("") EXCEPT !.cls = "balance", !.nums = <<actual, margin>>, !.curs = <<d.cur>>]},
                           <<n>>, <<>>, Diagnostics(w, d, actual)))
                /\ out' = Append(out, Common(d))
                /\ inv' = inv1
           ELSE LET src == out[The(pad).at].body[2]      \* the source account of the pad
                    wrong == BadCur(src, d.cur, <<The(pad).idx>>)
                IN IF Has(wrong)
                   THEN /\ errs' = Append(errs, The(wrong))
                        /\ inv' = inv1
                        /\ UNCHANGED out
                   ELSE /\ inv' = Adjust(inv1, src, d.cur, DNeg(margin))
                        /\ out' = Append([out EXCEPT ![The(pad).at + 1].ps =
                                     <<PadPosting(d.acc, margin, d.cur),
                                       PadPosting(src, DNeg(margin), d.cur)>>], Common(d))
                        /\ UNCHANGED errs

Pad(d) ==
  /\ d.kind = "pad" /\ Advance /\ UNCHANGED odd
  /\ IF Has(NotOpen(d.source, <<n>>)) THEN Reject(The(NotOpen(d.source, <<n>>)))
     ELSE IF Has(NotOpen(d.acc, <<n>>)) THEN Reject(The(NotOpen(d.acc, <<n>>)))
     ELSE IF d.acc \in DOMAIN pads
     THEN /\ pads' = Drop(pads, d.acc)
          /\ errs' = Append(errs, Err1("unused, second pad encountered", <<pads[d.acc].idx>>, <<<<n>>>>))
          /\ UNCHANGED <<opened, closed, acct, inv, win, out>>
     ELSE /\ pads' = (d.acc :> [at |-> Len(out) + 1, idx |-> n]) @@ pads
          /\ out' = out \o <<Common(d), [Common(d) EXCEPT !.kind = "txn", !.flag = PadFlag, !.body = <<>>]>>
          /\ UNCHANGED <<opened, closed, acct, inv, win, errs>>

(****************************** the rest ***********************************)
Passive == {"price", "commodity", "document", "note", "event", "query", "custom"}
Other(d) ==
  /\ d.kind \in Passive /\ Advance /\ UNCHANGED odd
  /\ out' = Append(out, Common(d))
  /\ UNCHANGED <<opened, closed, acct, inv, pads, win, errs>>

Step(d) == Open(d) \/ Close(d) \/ Txn(d) \/ Balance(d) \/ Pad(d) \/ Other(d)

(****************************** the outcome ********************************)
\* pads not used by the end are errors, reported in the order of the pads
Leftover ==
  LET S == {pads[a].idx : a \in DOMAIN pads}
      s == SetToSortSeq(S, <)
  IN [k \in 1..Len(s) |-> Err1("unused, no balance directive", <<s[k]>>, <<>>)]
AllErrs == errs \o Leftover
\* the booked directives are given only if there was no error at all
Succeeded == AllErrs = <<>>
=============================================================================
