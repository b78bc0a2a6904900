------------------------------ MODULE FormatMC ------------------------------
(* Exhaustive exploration of Format: one directive of each shape, and every *)
(* document of Depth directives out of a few.                               *)
EXTENDS Format, Json, IOUtils, TLC

Depth == ndJsonDeserialize(IOEnv.THEME)[1].depth

Opt(S) == {<<>>} \cup {<<x>> : x \in S}
N(m, s) == [m |-> m, s |-> s]
Ns == {N("10", 0), N("-150", 2), N("1", 7), N("12", -2)}
Ss == {"", "a", "say \"hi\"\\", "two\nlines {#x, @ y}"}
Marks == {<<<<>>, <<>>>>, <<<<"t">>, <<>>>>, <<<<>>, <<"l">>>>, <<<<"t", "t2">>, <<"l">>>>}
Amount(n) == Val("amount", "USD", <<n>>)
Number(n) == Val("number", "", <<n>>)
Vs == {Val("acc", "Assets:A", <<>>), Val("string", "say \"hi\"\\", <<>>), Val("string", "", <<>>), Val("bool", "TRUE", <<>>), Val("bool", "FALSE", <<>>),
       Val("cur", "USD", <<>>), Val("tag", "t", <<>>), Val("link", "l", <<>>), Val("date", "2020-02-03", <<>>)}
      \cup {Amount(n) : n \in Ns} \cup {Number(n) : n \in Ns}
Metas == {<<>>} \cup {<<[k |-> "key", v |-> v]>> : v \in Vs \cup {Val("null", "", <<>>)}}
         \cup {<<[k |-> "ka", v |-> Val("null", "", <<>>)], [k |-> "kb", v |-> Number(N("1", 7))]>>}
Few == {<<>>, <<[k |-> "key", v |-> Val("string", "say \"hi\"\\", <<>>)]>>}
E == [Empty EXCEPT !.date = "2020-01-02", !.curs = <<>>, !.tags = <<>>, !.links = <<>>]
Marked(S, metas) == {[d EXCEPT !.tags = m[1], !.links = m[2], !.meta = x] : d \in S, m \in Marks, x \in metas}
P == [flag |-> <<>>, acc |-> "Assets:A", n |-> <<>>, cur |-> <<>>, cost |-> <<>>, price |-> <<>>, tags |-> <<>>, links |-> <<>>, meta |-> <<>>]
Costs == {[per |-> p, total |-> t, cur |-> c, date |-> d, label |-> l, merge |-> m] :
            p \in Opt({N("1", 7), N("12", -2)}), t \in Opt({N("5", 0)}), c \in Opt({"USD"}), d \in Opt({"2020-02-03"}), l \in Opt({"say \"hi\"\\"}), m \in BOOLEAN}
Prices == {[per |-> p, total |-> t, cur |-> c] : p \in Opt(Ns), t \in Opt({N("5", 0)}), c \in Opt({"USD"})}
Postings == {[P EXCEPT !.flag = f, !.n = n, !.cur = c] : f \in Opt({"!", "*", "'P"}), n \in Opt(Ns), c \in Opt({"USD"})}
            \cup {[P EXCEPT !.n = <<N("10", 0)>>, !.cur = <<"X">>, !.cost = <<c>>, !.price = p] :
                    c \in Costs, p \in {<<>>, <<[per |-> <<>>, total |-> <<N("12", -2)>>, cur |-> <<"USD">>]>>}}
            \cup {[P EXCEPT !.n = <<N("10", 0)>>, !.cur = <<"X">>, !.price = <<p>>] : p \in Prices}
            \cup Marked({P}, Metas)
Txn == [E EXCEPT !.kind = "txn", !.flag = <<"*">>]
\* a number and a currency behind it are an amount: no text says anything else
Unwritable == {<<a, b>> : a \in {v \in Vs : v.t = "number"}, b \in {v \in Vs : v.t = "cur"}}
Shapes ==
  Marked({[E EXCEPT !.kind = "open", !.acc = <<"Assets:A">>, !.curs = c, !.booking = b] : c \in {<<>>, <<"USD">>, <<"EUR", "USD">>}, b \in Opt({"FIFO", "STRICT_WITH_SIZE"})}, Few)
  \cup Marked({[E EXCEPT !.kind = "close", !.acc = <<"Assets:A">>], [E EXCEPT !.kind = "commodity", !.cur = <<"USD">>],
               [E EXCEPT !.kind = "pad", !.acc = <<"Assets:A">>, !.source = <<"Equity:O">>]}, Metas)
  \cup Marked({[E EXCEPT !.kind = "balance", !.acc = <<"Assets:A">>, !.n = <<n>>, !.tol = t, !.cur = <<"USD">>] : n \in Ns, t \in Opt({N("0", 0), N("1", 7)})}, Few)
  \cup Marked({[E EXCEPT !.kind = "price", !.cur = <<"USD">>, !.price = <<[per |-> <<n>>, total |-> <<>>, cur |-> <<"EUR">>]>>] : n \in Ns}, Few)
  \cup Marked({[E EXCEPT !.kind = k, !.acc = <<"Assets:A">>, !.strs = <<s>>] : k \in {"note", "document"}, s \in Ss}, Few)
  \cup Marked({[E EXCEPT !.kind = k, !.strs = <<s, t>>] : k \in {"event", "query"}, s \in Ss, t \in Ss}, {<<>>})
  \cup {[E EXCEPT !.kind = "custom", !.strs = <<"a">>, !.vals = v, !.tags = m[1], !.links = m[2]] : v \in ({<<>>} \cup {<<a, b>> : a \in Vs, b \in Vs}) \ Unwritable, m \in Marks}
  \cup Marked({[E EXCEPT !.kind = "txn", !.flag = f, !.payee = p, !.narr = n] : f \in Opt({"*", "!", "'P", "#"}), p \in Opt(Ss), n \in Opt(Ss)}, Few)
  \cup {[Txn EXCEPT !.ps = <<p>>] : p \in Postings}
  \cup {[Txn EXCEPT !.ps = <<p, [P EXCEPT !.acc = "Assets:B"]>>, !.meta = <<[k |-> "key", v |-> Val("null", "", <<>>)]>>] : p \in Marked({P}, Few)}
A1 == Val("string", "x", <<>>)
Some == {[E EXCEPT !.kind = "close", !.acc = <<"Assets:A">>], [E EXCEPT !.kind = "note", !.acc = <<"Assets:A">>, !.strs = <<"two\nlines {#x, @ y}">>, !.tags = <<"t">>],
         [E EXCEPT !.kind = "custom", !.strs = <<"a">>, !.vals = <<A1>>, !.links = <<"l">>], Txn,
         [Txn EXCEPT !.narr = <<"a">>, !.meta = <<[k |-> "key", v |-> A1]>>],
         [Txn EXCEPT !.payee = <<"a">>, !.ps = <<[P EXCEPT !.links = <<"l">>, !.cost = <<[per |-> <<>>, total |-> <<>>, cur |-> <<>>, date |-> <<>>, label |-> <<>>, merge |-> FALSE]>>]>>]}
Docs == {<<d>> : d \in Shapes} \cup UNION {[1..n -> Some] : n \in 2..Depth}

MInit == \E ds \in Docs : Begin(ds)
MNext == FNext /\ (AllRead' => PrintT(<<"B", ToJson(dirs)>>))
MSpec == MInit /\ [][MNext]_fvars
=============================================================================
