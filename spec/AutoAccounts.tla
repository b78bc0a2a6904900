---------------------------- MODULE AutoAccounts ----------------------------
(* The plugin beancount.plugins.auto_accounts                               *)
(* (clj/src/beancount/plugins/auto_accounts.clj): directives pass one by    *)
(* one, and before a transaction pass openings of those of its accounts     *)
(* which nothing opened so far.                                             *)
(* A directive is [kind, date, accs, auto, rest]: its accounts, for a       *)
(* transaction those of its postings; whether it has the metadata of what   *)
(* the plugin makes and nothing else; and all else there is to it.          *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES order,             \* the names of accounts in their order
          todo,              \* directives to come
          opened,            \* accounts opened so far
          out                \* directives passed on
aavars == <<order, todo, opened, out>>

At(a) == CHOOSE i \in 1..Len(order) : order[i] = a
Before(a, b) == At(a) < At(b)
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y) IN <<x>> \o Sorted(S \ {x})
Opening(a, date) == [kind |-> "open", date |-> date, accs |-> <<a>>, auto |-> TRUE, rest |-> ""]

Begin(ds, names) == order = names /\ todo = ds /\ opened = {} /\ out = <<>>

Open == /\ todo # <<>> /\ todo[1].kind = "open"
        /\ opened' = opened \cup Range(todo[1].accs)
        /\ out' = Append(out, todo[1]) /\ todo' = Tail(todo)
Txn == /\ todo # <<>> /\ todo[1].kind = "txn"
       /\ LET new == Sorted(Range(todo[1].accs) \ opened) IN
          /\ opened' = opened \cup Range(new)
          /\ out' = out \o [i \in 1..Len(new) |-> Opening(new[i], todo[1].date)] \o <<todo[1]>>
       /\ todo' = Tail(todo)
Other == /\ todo # <<>> /\ todo[1].kind \notin {"open", "txn"}
         /\ out' = Append(out, todo[1]) /\ todo' = Tail(todo) /\ UNCHANGED opened
AANext == (Open \/ Txn \/ Other) /\ UNCHANGED order

\* ---------------------------------------------------------------- properties
\* whatever a transaction uses was opened before
AllOpened == \A i \in 1..Len(out) : out[i].kind = "txn" =>
               \A a \in Range(out[i].accs) : \E j \in 1..i - 1 : out[j].kind = "open" /\ a \in Range(out[j].accs)
\* it opens nothing which is open, nor for nothing
Needed == \A i \in 1..Len(out) : out[i].auto =>
            /\ \A j \in 1..i - 1 : ~(out[j].kind = "open" /\ out[j].accs = out[i].accs)
            /\ \E k \in i + 1..Len(out) : /\ out[k].kind = "txn" /\ out[i].accs[1] \in Range(out[k].accs) /\ out[k].date = out[i].date
                                          /\ \A m \in i..k - 1 : out[m].auto
\* everything else goes through as it is
PassedOn(given) == SelectSeq(out, LAMBDA d : ~d.auto) = SubSeq(given, 1, Len(given) - Len(todo))
=============================================================================
