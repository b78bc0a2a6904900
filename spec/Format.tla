------------------------------- MODULE Format -------------------------------
(* Directives as text: how they are printed, and how that text reads.       *)
(* A directive is [kind, date, acc, source, cur, curs, booking, strs, n,    *)
(* tol, price, flag, payee, narr, vals, ps, tags, links, meta], of which    *)
(* each kind has some; what may be missing is <<>> or <<it>>.  Numbers are  *)
(* [m, s]: the digits, and how many of them are after the point.            *)
(*   strs: texts in quotes; vals: values of a custom directive, [t, s, n];  *)
(*   ps: postings, [flag, acc, n, cur, cost, price, tags, links, meta], with*)
(*   cost [per, total, cur, date, label, merge] and price [per, total, cur];*)
(*   curs, tags, links: in any order; meta: sequence of [k, v], by key.     *)
(* Directives are printed one by one, and what is printed read line by line.*)
EXTENDS Integers, Sequences

VARIABLES dirs,     \* to print
          out,      \* printed of them
          done,     \* how many
          at,       \* read up to here
          back      \* directives read
fvars == <<dirs, out, done, at, back>>

Has(x) == x # <<>>
The(x) == x[1]
Range(s) == {s[k] : k \in DOMAIN s}
Char(t, i) == SubSeq(t, i, i)
RECURSIVE Join(_, _)
Join(ws, sep) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o sep \o Join(Tail(ws), sep)
RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN "" ELSE "0" \o Zeros(n - 1)
Each(s, F(_)) == [k \in 1..Len(s) |-> F(s[k])]

(******************************** printing *********************************)
\* numbers are never in the notation with an exponent
Plain(n) ==
  LET neg == Char(n.m, 1) = "-"
      dg == IF neg THEN SubSeq(n.m, 2, Len(n.m)) ELSE n.m
      pad == Zeros(n.s + 1 - Len(dg)) \o dg
  IN (IF neg THEN "-" ELSE "") \o
     (IF n.s > 0 THEN SubSeq(pad, 1, Len(pad) - n.s) \o "." \o SubSeq(pad, Len(pad) - n.s + 1, Len(pad))
      ELSE IF dg = "0" THEN dg ELSE dg \o Zeros(-n.s))
RECURSIVE Esc(_, _)
Esc(s, i) == IF i > Len(s) THEN ""
             ELSE (IF Char(s, i) \in {"\"", "\\"} THEN "\\" ELSE "") \o Char(s, i) \o Esc(s, i + 1)
Quote(s) == "\"" \o Esc(s, 1) \o "\""

Value(v) ==
  CASE v.t = "string" -> Quote(v.s)
    [] v.t = "number" -> Plain(The(v.n))
    [] v.t = "amount" -> Plain(The(v.n)) \o " " \o v.s
    [] v.t = "tag" -> "#" \o v.s
    [] v.t = "link" -> "^" \o v.s
    [] OTHER -> v.s
\* of a custom directive: behind a number, a negative one would be subtracted
CustomValue(before, v) ==
  IF before.t = "number" /\ v.t \in {"number", "amount"} /\ Char(The(v.n).m, 1) = "-"
  THEN "(" \o Plain(The(v.n)) \o ")" \o (IF v.t = "amount" THEN " " \o v.s ELSE "")
  ELSE Value(v)
CustomValues(vs) == [k \in 1..Len(vs) |-> IF k = 1 THEN Value(vs[1]) ELSE CustomValue(vs[k - 1], vs[k])]
Cost(c) ==
  LET num == IF Has(c.per) THEN <<Plain(The(c.per))>> ELSE IF Has(c.total) THEN <<"#", Plain(The(c.total))>> ELSE <<>>
      amount == num \o c.cur
  IN "{" \o Join((IF amount = <<>> THEN <<>> ELSE <<Join(amount, " ")>>) \o c.date \o Each(c.label, Quote)
                 \o (IF c.merge THEN <<"*">> ELSE <<>>), ", ") \o "}"
Price(p) == Join((IF Has(p.per) THEN <<"@", Plain(The(p.per))>> ELSE IF Has(p.total) THEN <<"@@", Plain(The(p.total))>> ELSE <<"@">>) \o p.cur, " ")
PostingLine(p) == "  " \o Join(p.flag \o <<p.acc>> \o Each(p.n, Plain) \o p.cur \o Each(p.cost, Cost) \o Each(p.price, Price), " ")

\* text is a sequence of pieces [lit, any]: what is there, or some which are there in any order
Lit(t) == [lit |-> t, any |-> {}]
AnyOf(before, x, after) == [lit |-> "", any |-> {before \o "#" \o t \o after : t \in Range(x.tags)} \cup {before \o "^" \o t \o after : t \in Range(x.links)}]
MetaPieces(meta) == Each(meta, LAMBDA e : Lit("  " \o e.k \o ":" \o (IF e.v.t = "null" THEN "" ELSE " " \o Value(e.v)) \o "\n"))
RECURSIVE PostingPieces(_)
PostingPieces(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE <<Lit(PostingLine(ps[1]) \o "\n"), AnyOf("  ", ps[1], "\n")>> \o MetaPieces(ps[1].meta) \o PostingPieces(Tail(ps))
Words(d) ==
  CASE d.kind = "txn" -> IF Has(d.payee) THEN <<Quote(The(d.payee)), Quote(IF Has(d.narr) THEN The(d.narr) ELSE "")>> ELSE Each(d.narr, Quote)
    [] d.kind = "price" -> <<The(d.cur), Plain(The(The(d.price).per)), The(The(d.price).cur)>>
    [] d.kind = "balance" -> <<The(d.acc), Plain(The(d.n))>> \o (IF Has(d.tol) THEN <<"~", Plain(The(d.tol))>> ELSE <<>>) \o d.cur
    [] d.kind = "open" -> d.acc \o (IF d.curs = <<>> THEN <<>> ELSE <<Join(d.curs, ",")>>) \o Each(d.booking, Quote)
    [] d.kind = "pad" -> d.acc \o d.source
    [] OTHER -> d.acc \o d.cur \o Each(d.strs, Quote) \o CustomValues(d.vals)
First(d) == IF d.kind = "txn" THEN (IF Has(d.flag) THEN The(d.flag) ELSE "txn") ELSE d.kind
Pieces(d) ==
  <<Lit(Join(<<d.date, First(d)>> \o Words(d), " "))>>
  \* beside the values of a custom directive, they would be values
  \o (IF d.kind = "custom" THEN <<Lit("\n"), AnyOf("  ", d, "\n")>> ELSE <<AnyOf(" ", d, ""), Lit("\n")>>)
  \o MetaPieces(d.meta) \o PostingPieces(d.ps)
RECURSIVE AllPieces(_)
AllPieces(ds) == IF ds = <<>> THEN <<>> ELSE Pieces(ds[1]) \o (IF Len(ds) > 1 THEN <<Lit("\n")>> ELSE <<>>) \o AllPieces(Tail(ds))

\* whether t is these pieces, from i on
RECURSIVE Fits(_, _, _)
Fits(t, i, pieces) ==
  IF pieces = <<>> THEN i = Len(t) + 1
  ELSE LET p == pieces[1]
           here(w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w
       IN IF p.lit # "" THEN here(p.lit) /\ Fits(t, i + Len(p.lit), Tail(pieces))
          ELSE IF p.any = {} THEN Fits(t, i, Tail(pieces))
          ELSE \E w \in p.any : here(w) /\ Fits(t, i + Len(w), <<[p EXCEPT !.any = @ \ {w}]>> \o Tail(pieces))
\* one such text
RECURSIVE Text(_)
Text(pieces) ==
  IF pieces = <<>> THEN ""
  ELSE LET p == pieces[1] IN
       IF p.any = {} THEN p.lit \o Text(Tail(pieces))
       ELSE LET w == CHOOSE w \in p.any : TRUE IN w \o Text(<<[p EXCEPT !.any = @ \ {w}]>> \o Tail(pieces))

(********************************* reading *********************************)
Tok(q, x) == [q |-> q, x |-> x]
RECURSIVE WordEnd(_, _), QuoteEnd(_, _), Unesc(_, _), Lex(_, _)
WordEnd(t, i) == IF i > Len(t) \/ Char(t, i) \in {" ", "{", "}", ",", "\"", "\n"} THEN i ELSE WordEnd(t, i + 1)
\* where the quote which ends the text is
QuoteEnd(t, i) == IF Char(t, i) = "\"" THEN i ELSE QuoteEnd(t, i + (IF Char(t, i) = "\\" THEN 2 ELSE 1))
Unesc(s, i) == IF i > Len(s) THEN ""
               ELSE IF Char(s, i) = "\\" THEN Char(s, i + 1) \o Unesc(s, i + 2)
               ELSE Char(s, i) \o Unesc(s, i + 1)
Lex(t, i) ==
  IF i > Len(t) THEN <<>>
  ELSE LET c == Char(t, i) IN
       IF c = " " THEN Lex(t, i + 1)
       ELSE IF c \in {"{", "}", ","} THEN <<Tok(FALSE, c)>> \o Lex(t, i + 1)
       ELSE IF c = "\"" THEN LET e == QuoteEnd(t, i + 1) IN <<Tok(TRUE, Unesc(SubSeq(t, i + 1, e - 1), 1))>> \o Lex(t, e + 1)
       ELSE LET e == WordEnd(t, i) IN <<Tok(FALSE, SubSeq(t, i, e - 1))>> \o Lex(t, e)
RECURSIVE LineEnd(_, _)
LineEnd(t, i) == IF Char(t, i) = "\n" THEN i ELSE IF Char(t, i) = "\"" THEN LineEnd(t, QuoteEnd(t, i + 1) + 1) ELSE LineEnd(t, i + 1)

In(c, w) == \E i \in 1..Len(w) : Char(w, i) = c
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Begins(w, c) == Len(w) > 0 /\ Char(w, 1) = c
IsDate(w) == Len(w) = 10 /\ Char(w, 5) = "-"
IsNum(w) == ~IsDate(w) /\ Len(w) > 0 /\ (Char(w, 1) \in Digits \/ (Char(w, 1) = "-" /\ Len(w) > 1))
IsTag(k) == ~k.q /\ Begins(k.x, "#") /\ Len(k.x) > 1
IsLink(k) == ~k.q /\ Begins(k.x, "^") /\ Len(k.x) > 1
IsKey(k) == ~k.q /\ Len(k.x) > 1 /\ Char(k.x, Len(k.x)) = ":"
Rest(w) == SubSeq(w, 2, Len(w))
RECURSIVE NoZeros(_)
NoZeros(w) == IF Len(w) > 1 /\ Char(w, 1) = "0" THEN NoZeros(Rest(w)) ELSE w
Num(w) ==
  LET neg == Char(w, 1) = "-"
      b == IF neg THEN Rest(w) ELSE w
      dot == {i \in 1..Len(b) : Char(b, i) = "."}
      i == CHOOSE i \in dot : TRUE
      dg == NoZeros(IF dot = {} THEN b ELSE SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)))
  IN [m |-> (IF neg THEN "-" ELSE "") \o dg, s |-> IF dot = {} THEN 0 ELSE Len(b) - i]
Val(t, s, n) == [t |-> t, s |-> s, n |-> n]
\* a word which is a value
WordVal(k) ==
  IF k.q THEN Val("string", k.x, <<>>)
  ELSE IF IsTag(k) THEN Val("tag", Rest(k.x), <<>>)
  ELSE IF IsLink(k) THEN Val("link", Rest(k.x), <<>>)
  ELSE IF k.x \in {"TRUE", "FALSE"} THEN Val("bool", k.x, <<>>)
  ELSE IF IsDate(k.x) THEN Val("date", k.x, <<>>)
  ELSE IF In(":", k.x) THEN Val("acc", k.x, <<>>)
  ELSE Val("cur", k.x, <<>>)
IsCur(k) == WordVal(k).t = "cur" /\ ~Begins(k.x, "(")
RECURSIVE Vals(_)
\* a number in parentheses is a number; one which is negative and not, is subtracted from a number before it
InParens(w) == SubSeq(w, 2, Len(w) - 1)
Vals(ks) ==
  IF ks = <<>> THEN <<>>
  ELSE IF ~ks[1].q /\ Begins(ks[1].x, "(") THEN Vals(<<[ks[1] EXCEPT !.x = InParens(@)]>> \o Tail(ks))
  ELSE IF ~ks[1].q /\ IsNum(ks[1].x) /\ Len(ks) > 1 /\ ~ks[2].q /\ Begins(ks[2].x, "-") THEN <<Val("subtracted", "", <<>>)>>
  ELSE IF ~ks[1].q /\ IsNum(ks[1].x)
       THEN IF Len(ks) > 1 /\ IsCur(ks[2]) /\ ~IsNum(ks[2].x)
            THEN <<Val("amount", ks[2].x, <<Num(ks[1].x)>>)>> \o Vals(SubSeq(ks, 3, Len(ks)))
            ELSE <<Val("number", "", <<Num(ks[1].x)>>)>> \o Vals(Tail(ks))
       ELSE <<WordVal(ks[1])>> \o Vals(Tail(ks))

Nums(ks) == SelectSeq(ks, LAMBDA k : ~k.q /\ IsNum(k.x))
Only(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
Curs(ks) == Each(SelectSeq(ks, LAMBDA k : ~k.q /\ ~IsNum(k.x) /\ k.x \notin {"#", "@", "@@", "*", ","} /\ IsCur(k)), LAMBDA k : k.x)
Strs(ks) == Each(SelectSeq(ks, LAMBDA k : k.q), LAMBDA k : k.x)
Accs(ks) == Each(SelectSeq(ks, LAMBDA k : ~k.q /\ In(":", k.x)), LAMBDA k : k.x)
Tags(ks) == {Rest(k.x) : k \in {ks[i] : i \in {i \in 1..Len(ks) : IsTag(ks[i])}}}
Links(ks) == {Rest(k.x) : k \in {ks[i] : i \in {i \in 1..Len(ks) : IsLink(ks[i])}}}
Where(ks, w) == {i \in 1..Len(ks) : ~ks[i].q /\ ks[i].x = w}
\* what is before and after a mark, if there is one
Until(ks, ws) == LET is == UNION {Where(ks, w) : w \in ws} IN
                 IF is = {} THEN ks ELSE SubSeq(ks, 1, (CHOOSE i \in is : \A j \in is : i <= j) - 1)
From(ks, ws) == LET b == Until(ks, ws) IN SubSeq(ks, Len(b) + 1, Len(ks))
ReadNums(ks) == Each(Nums(ks), LAMBDA k : Num(k.x))

ReadCost(ks) ==
  LET num == Until(ks, {"#"})
      tot == From(ks, {"#"})
  IN [per |-> Only(ReadNums(num)), total |-> Only(ReadNums(tot)), cur |-> Curs(ks),
      date |-> Each(SelectSeq(ks, LAMBDA k : ~k.q /\ IsDate(k.x)), LAMBDA k : k.x), label |-> Strs(ks), merge |-> Where(ks, "*") # {}]
ReadPrice(ks) ==
  LET n == Only(ReadNums(ks))
  IN [per |-> IF ks[1].x = "@" THEN n ELSE <<>>, total |-> IF ks[1].x = "@@" THEN n ELSE <<>>, cur |-> Curs(ks)]
ReadPosting(ks) ==
  LET flagged == ~In(":", ks[1].x)
      r == IF flagged THEN Tail(ks) ELSE ks
      units == Until(Tail(r), {"{", "@", "@@"})
      cost == Until(From(r, {"{"}), {"}"})
      price == From(r, {"@", "@@"})
  IN [flag |-> IF flagged THEN <<ks[1].x>> ELSE <<>>, acc |-> r[1].x, n |-> ReadNums(units), cur |-> Curs(units),
      cost |-> IF cost = <<>> THEN <<>> ELSE <<ReadCost(Tail(cost))>>,
      price |-> IF price = <<>> THEN <<>> ELSE <<ReadPrice(price)>>,
      tags |-> {}, links |-> {}, meta |-> <<>>]
\* an empty text is as good as none
Said(x) == IF x = <<"">> THEN <<>> ELSE x
Empty == [kind |-> "", date |-> "", acc |-> <<>>, source |-> <<>>, cur |-> <<>>, curs |-> {}, booking |-> <<>>, strs |-> <<>>, n |-> <<>>, tol |-> <<>>,
          price |-> <<>>, flag |-> <<>>, payee |-> <<>>, narr |-> <<>>, vals |-> <<>>, ps |-> <<>>, tags |-> {}, links |-> {}, meta |-> <<>>]
Kinds == {"open", "close", "commodity", "pad", "balance", "price", "note", "document", "event", "query", "custom"}
ReadHead(ks) ==
  LET w == ks[2].x
      r == SubSeq(ks, 3, Len(ks))
      kind == IF w \in Kinds THEN w ELSE "txn"
      strs == Strs(r)
      e == [Empty EXCEPT !.kind = kind, !.date = ks[1].x, !.tags = IF kind = "custom" THEN {} ELSE Tags(r), !.links = IF kind = "custom" THEN {} ELSE Links(r)]
  IN CASE kind = "txn" -> [e EXCEPT !.flag = IF w = "txn" THEN <<"*">> ELSE <<w>>, !.payee = IF Len(strs) = 2 THEN Said(<<strs[1]>>) ELSE <<>>,
                                    !.narr = IF strs = <<>> THEN <<>> ELSE Said(<<strs[Len(strs)]>>)]
       [] kind = "open" -> [e EXCEPT !.acc = Accs(r), !.curs = Range(Curs(SelectSeq(r, LAMBDA k : ~IsTag(k)))), !.booking = strs]
       [] kind = "pad" -> [e EXCEPT !.acc = <<r[1].x>>, !.source = <<r[2].x>>]
       [] kind = "price" -> [e EXCEPT !.cur = <<r[1].x>>, !.price = <<[per |-> <<Num(r[2].x)>>, total |-> <<>>, cur |-> <<r[3].x>>]>>]
       [] kind = "balance" -> [e EXCEPT !.acc = Accs(r), !.n = Only(ReadNums(Until(r, {"~"}))), !.tol = ReadNums(From(r, {"~"})),
                                        !.cur = <<SelectSeq(Curs(r), LAMBDA c : c # "~")[1]>>]
       [] kind = "custom" -> [e EXCEPT !.strs = <<r[1].x>>, !.vals = Vals(Tail(r))]
       [] kind = "commodity" -> [e EXCEPT !.cur = <<r[1].x>>]
       [] OTHER -> [e EXCEPT !.acc = Accs(r), !.strs = strs]
\* a line below belongs to the posting above it, if there is one
Below(d, F(_)) == IF d.ps = <<>> THEN F(d) ELSE [d EXCEPT !.ps[Len(d.ps)] = F(@)]
ReadBelow(d, ks) ==
  IF IsKey(ks[1])
  THEN LET v == Vals(Tail(ks))
           e == [k |-> SubSeq(ks[1].x, 1, Len(ks[1].x) - 1), v |-> IF v = <<>> THEN Val("null", "", <<>>) ELSE v[1]]
       IN Below(d, LAMBDA x : [x EXCEPT !.meta = Append(@, e)])
  ELSE IF IsTag(ks[1]) THEN Below(d, LAMBDA x : [x EXCEPT !.tags = @ \cup {Rest(ks[1].x)}])
  ELSE IF IsLink(ks[1]) THEN Below(d, LAMBDA x : [x EXCEPT !.links = @ \cup {Rest(ks[1].x)}])
  ELSE [d EXCEPT !.ps = Append(@, ReadPosting(ks))]

(******************************* what is kept ******************************)
KeptNum(n) == IF n.s >= 0 THEN n ELSE [m |-> IF n.m = "0" THEN "0" ELSE n.m \o Zeros(-n.s), s |-> 0]
KeptNums(s) == Each(s, KeptNum)
KeptVal(v) == [v EXCEPT !.n = KeptNums(@)]
KeptMeta(m) == Each(m, LAMBDA e : [e EXCEPT !.v = KeptVal(@)])
\* both per unit and in total: only the former is
KeptCost(c) == [c EXCEPT !.per = KeptNums(@), !.total = IF Has(c.per) THEN <<>> ELSE KeptNums(@)]
KeptPrice(c) == [c EXCEPT !.per = KeptNums(@), !.total = IF Has(c.per) THEN <<>> ELSE KeptNums(@)]
KeptPosting(p) == [p EXCEPT !.n = KeptNums(@), !.cost = Each(@, KeptCost), !.price = Each(@, KeptPrice),
                            !.tags = Range(@), !.links = Range(@), !.meta = KeptMeta(@)]
KeptDct(d) == [d EXCEPT !.n = KeptNums(@), !.tol = KeptNums(@), !.price = Each(@, KeptPrice), !.flag = IF d.kind = "txn" /\ @ = <<>> THEN <<"*">> ELSE @,
                        !.payee = Said(@), !.narr = Said(@), !.vals = Each(@, KeptVal), !.ps = Each(@, KeptPosting),
                        !.curs = Range(@), !.tags = Range(@), !.links = Range(@), !.meta = KeptMeta(@)]
Kept(ds) == Each(ds, KeptDct)

(********************************* actions *********************************)
Begin(ds) == dirs = ds /\ out = "" /\ done = 0 /\ at = 1 /\ back = <<>>
PrintOne ==
  /\ done < Len(dirs)
  /\ out' = out \o (IF done > 0 THEN "\n" ELSE "") \o Text(Pieces(dirs[done + 1]))
  /\ done' = done + 1
  /\ UNCHANGED <<dirs, at, back>>
\* a line, with what is in quotes whole
ReadLine ==
  /\ done = Len(dirs) /\ at <= Len(out)
  /\ LET e == LineEnd(out, at)
         line == SubSeq(out, at, e - 1)
         ks == Lex(line, 1)
     IN /\ at' = e + 1
        /\ back' = IF ks = <<>> THEN back
                   ELSE IF Char(line, 1) = " " THEN [back EXCEPT ![Len(back)] = ReadBelow(@, ks)]
                   ELSE Append(back, ReadHead(ks))
  /\ UNCHANGED <<dirs, out, done>>
FNext == PrintOne \/ ReadLine
AllRead == done = Len(dirs) /\ at > Len(out)

(*************************** what users rely on ****************************)
ReadsBack == AllRead => back = Kept(dirs)
\* directives read so far are whole, but for the last
ReadInOrder == \A k \in 1..(Len(back) - 1) : back[k] = KeptDct(dirs[k])
\* printed once more, it is the same text
Stable == AllRead => Fits(out, 1, AllPieces(dirs))
=============================================================================
