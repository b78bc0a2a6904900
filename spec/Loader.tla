------------------------------- MODULE Loader -------------------------------
(* How the files of a ledger are put together: what the server answers to   *)
(* parser.directives, parser.options and parser.plugins, or the errors it   *)
(* answers instead.                                                         *)
(*                                                                          *)
(* A file is [name, dir, readable, items]; file 1 is the root.  An item is  *)
(* one declaration, at line `line` of its file, by its kind:                *)
(*   dir      a directive: d (as in Ledger, numbers may be expressions),    *)
(*            own tags and meta, text, posts (line and text of postings)    *)
(*   pushtag, poptag (tag), pushmeta (key, val), popmeta (key)              *)
(*   include  files: the expansion of its pattern, in order                 *)
(*   option   name, raw, val: << >> if raw is malformed, abs                *)
(*   plugin   name, config: <<text>> or << >>                               *)
(*   bad      anything which does not parse                                 *)
(* strs: the strings of an item, [line, n] with n the number of lines.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Dec, Text

VARIABLES files, stack, left, tags, metas, opts, plugins, out, errs, entered, maxl, warns
\* stack: where we are in the files entered; left: files not entered yet
\* tags, metas: what is pushed, by tag or key, with its places, oldest first
lvars == <<files, stack, left, tags, metas, opts, plugins, out, errs, entered, maxl, warns>>

Empty == [x \in {} |-> x]
Begin(fs) ==
  /\ files = fs
  /\ stack = <<[f |-> 1, i |-> 1]>>
  /\ left = {f \in 2..Len(fs) : fs[f].readable}
  /\ tags = Empty /\ metas = Empty /\ entered = Empty
  /\ opts = {} /\ plugins = <<>> /\ out = <<>> /\ errs = <<>>
  /\ maxl = [set |-> FALSE, n |-> 64, at |-> [file |-> "", line |-> 0]] /\ warns = <<>>

Top == stack[Len(stack)]
Here == files[Top.f]
HasItem == stack # <<>> /\ Top.i <= Len(Here.items)
Item == Here.items[Top.i]
At == [file |-> Here.name, line |-> Item.line]
Advance == [stack EXCEPT ![Len(stack)].i = @ + 1]

LastOf(s) == s[Len(s)]
FrontOf(s) == SubSeq(s, 1, Len(s) - 1)
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* f with what v adds at the end of its sequence for k
Push(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = Append(@, v)] ELSE f @@ (k :> <<v>>)
Pop(f, k) == IF Len(f[k]) = 1 THEN Without(f, k) ELSE [f EXCEPT ![k] = FrontOf(@)]

Error(msg, reason, at, rel) == [msg |-> msg, reason |-> reason, at |-> at, rel |-> rel]
Fail(msg, reason, rel) == errs' = Append(errs, Error(msg, reason, At, rel))

-----------------------------------------------------------------------------
(* Numbers: an expression has the value of its operations, rounded to the   *)
(* most decimals any of its numbers is written with.                        *)
RECURSIVE Value(_), Decimals(_)
Value(e) ==
  IF "op" \notin DOMAIN e THEN [m |-> e.m, s |-> e.s]
  ELSE CASE e.op = "neg" -> DNeg(Value(e.a))
         [] e.op = "+" -> DAdd(Value(e.a), Value(e.b))
         [] e.op = "-" -> DSub(Value(e.a), Value(e.b))
         [] e.op = "*" -> DMul(Value(e.a), Value(e.b))
         [] e.op = "/" -> DDiv(Value(e.a), Value(e.b))
Decimals(e) ==
  IF "op" \notin DOMAIN e THEN e.s
  ELSE IF e.op = "neg" THEN Decimals(e.a)
  ELSE LET x == Decimals(e.a) y == Decimals(e.b) IN IF x > y THEN x ELSE y
Number(e) == DRescale(Value(e), Decimals(e))

-----------------------------------------------------------------------------
(* Directives.  What is pushed applies from there on, across files, unless  *)
(* the directive has it itself; of the values of a key the last pushed one. *)
Own(pairs) == {p[1] : p \in {pairs[k] : k \in 1..Len(pairs)}}
TagsOf(it) == {it.d.tags[k] : k \in 1..Len(it.d.tags)} \cup DOMAIN tags
MetaOf(it) == {it.d.meta[k] : k \in 1..Len(it.d.meta)}
              \cup {<<k, LastOf(metas[k]).val>> : k \in DOMAIN metas \ Own(it.d.meta)}
Class(kind) == CASE kind = "open" -> 0 [] kind = "balance" -> 1 [] OTHER -> 2
Loaded(it) == [f |-> Top.f, i |-> Top.i, date |-> it.d.date, class |-> Class(it.d.kind),
               tags |-> TagsOf(it), meta |-> MetaOf(it),
               pushed |-> DOMAIN tags \cup DOMAIN metas # {}]

\* by date, opens first, then balances, else as they come
Before(a, b) == a.date < b.date \/ (a.date = b.date /\ a.class < b.class)
Rank(k) == 1 + Cardinality({j \in 1..Len(out) : Before(out[j], out[k]) \/ (j < k /\ ~Before(out[k], out[j]))})
Sorted == LET n == Len(out)
              at == [k \in 1..n |-> Rank(k)]
          IN [r \in 1..n |-> out[CHOOSE k \in 1..n : at[k] = r]]

-----------------------------------------------------------------------------
(* Options: by name, the key they are served under, and their kind.         *)
(* A currency, account, number or path given for val is well formed.        *)
One(key, cls) == [key |-> key, cls |-> cls]
OptionNames ==
  ("title" :> One("title", "text"))
  @@ [n \in {"account_previous_balances"} |-> One("account-previous-balances", "val")]
  @@ [n \in {"account_previous_earnings"} |-> One("account-previous-earnings", "val")]
  @@ [n \in {"account_previous_conversions"} |-> One("account-previous-conversions", "val")]
  @@ [n \in {"account_current_earnings"} |-> One("account-current-earnings", "val")]
  @@ [n \in {"account_current_conversions"} |-> One("account-current-conversions", "val")]
  @@ [n \in {"account_unrealized_gains"} |-> One("account-unrealized-gains", "val")]
  @@ [n \in {"account_rounding"} |-> One("account-rounding", "val")]
  @@ [n \in {"conversion_currency"} |-> One("conversion-currency", "val")]
  @@ [n \in {"inferred_tolerance_multiplier"} |-> One("inferred-tolerance-multiplier", "val")]
  @@ [n \in {"inferred_tolerance_default"} |-> One("inferred-tolerance-default", "map")]
  @@ [n \in {"infer_tolerance_from_cost"} |-> One("infer-tolerance-from-cost", "bool")]
  @@ [n \in {"render_commas"} |-> One("render-commas", "bool01")]
  @@ [n \in {"documents"} |-> One("documents", "path")]
  @@ [n \in {"operating_currency"} |-> One("operating-currency", "set")]
  @@ [n \in {"booking_method"} |-> One("booking-method", "method")]
  @@ [n \in {"plugin_processing_mode"} |-> One("plugin-processing-mode", "mode")]
  @@ [n \in {"name_assets"} |-> One("name-assets", "type")]
  @@ [n \in {"name_liabilities"} |-> One("name-liabilities", "type")]
  @@ [n \in {"name_equity"} |-> One("name-equity", "type")]
  @@ [n \in {"name_income"} |-> One("name-income", "type")]
  @@ [n \in {"name_expenses"} |-> One("name-expenses", "type")]
  @@ [n \in {"long_string_maxlines"} |-> One("", "lines")]

Booleans == [r \in {"true", "TRUE", "True", "tRuE"} |-> "true"] @@ [r \in {"false", "FALSE", "False", "fAlSe"} |-> "false"]
Booleans01 == Booleans @@ ("1" :> "true") @@ ("0" :> "false")
Methods == ("STRICT" :> "strict") @@ ("STRICT_WITH_SIZE" :> "strict-with-size") @@ ("NONE" :> "none")
           @@ ("AVERAGE" :> "average") @@ ("FIFO" :> "fifo") @@ ("LIFO" :> "lifo") @@ ("HIFO" :> "hifo")
Modes == ("DEFAULT" :> "default") @@ ("RAW" :> "raw")
Table(cls) == CASE cls = "bool" -> Booleans [] cls = "bool01" -> Booleans01
                [] cls = "method" -> Methods [] cls = "mode" -> Modes [] OTHER -> Empty
Tabled == {"bool", "bool01", "method", "mode"}
ValidOption(it) == LET c == OptionNames[it.name].cls
                   IN IF c \in Tabled THEN it.raw \in DOMAIN Table(c) ELSE it.val # <<>>
\* how it is kept: k distinguishes the values of an option which may have several
Kept(it) ==
  LET o == OptionNames[it.name]
      v == IF o.cls \in Tabled THEN Table(o.cls)[it.raw] ELSE it.val[1]
      path == IF it.abs \/ Here.dir = "" THEN v ELSE Here.dir \o "/" \o v
  IN CASE o.cls = "map" -> IF v[1] = "*" THEN [key |-> o.key \o "-fallback", k |-> "", v |-> v[2], at |-> At]
                           ELSE [key |-> o.key, k |-> v[1], v |-> v[2], at |-> At]
       [] o.cls = "path" -> [key |-> o.key, k |-> path, v |-> "", at |-> At]
       [] o.cls = "set" -> [key |-> o.key, k |-> v, v |-> "", at |-> At]
       [] OTHER -> [key |-> o.key, k |-> "", v |-> v, at |-> At]
Severals == {"map", "path", "set"}

SetOption ==
  IF Item.name \notin DOMAIN OptionNames
  THEN Fail("*", "unknown option", <<>>) /\ UNCHANGED <<opts, maxl>>
  ELSE IF ~ValidOption(Item)
  THEN Fail("*", "*", <<>>) /\ UNCHANGED <<opts, maxl>>
  ELSE IF OptionNames[Item.name].cls = "lines"
  THEN maxl' = [set |-> TRUE, n |-> Item.val[1], at |-> At] /\ UNCHANGED <<opts, errs>>
  ELSE LET o == Kept(Item)
           same == {x \in opts : x.key = o.key /\ x.k = o.k}
           several == OptionNames[Item.name].cls \in Severals
       IN /\ UNCHANGED maxl
          /\ IF same = {} \/ OptionNames[Item.name].cls = "type"
             THEN opts' = (opts \ same) \cup {o} /\ UNCHANGED errs
             ELSE /\ Fail("invalid option", IF several THEN "duplicate value" ELSE "duplicate",
                          <<[lab |-> IF several THEN "option value" ELSE "option",
                             at |-> (CHOOSE x \in same : TRUE).at]>>)
                  /\ UNCHANGED opts

\* the options served: those set, and the names of account types
Defaults == {[key |-> "name-assets", k |-> "", v |-> "Assets"], [key |-> "name-liabilities", k |-> "", v |-> "Liabilities"],
             [key |-> "name-equity", k |-> "", v |-> "Equity"], [key |-> "name-income", k |-> "", v |-> "Income"],
             [key |-> "name-expenses", k |-> "", v |-> "Expenses"]}
Options == LET given == {[key |-> x.key, k |-> x.k, v |-> x.v] : x \in opts}
           IN given \cup {x \in Defaults : \A y \in given : y.key # x.key}

-----------------------------------------------------------------------------
(* Includes.  Each file of the expansion is entered at once, on top of what *)
(* is open, so that the last is read first.  Including again does nothing   *)
(* if what is pushed is the same as when it was entered.                    *)
Context == [tags |-> [t \in DOMAIN tags |-> Len(tags[t])], metas |-> metas]
RECURSIVE Include(_, _)
Include(paths, st) ==
  IF paths = <<>> THEN st
  ELSE LET p == Head(paths) IN
    Include(Tail(paths),
      IF p \in st.left
      THEN [st EXCEPT !.left = @ \ {p}, !.stack = Append(@, [f |-> p, i |-> 1]),
                      !.entered = @ @@ (p :> [ctx |-> Context, at |-> At])]
      ELSE IF ~files[p].readable
      THEN [st EXCEPT !.errs = Append(@, Error("can't read file", "*", At, <<>>))]
      ELSE IF p \notin DOMAIN st.entered            \* the root
      THEN [st EXCEPT !.errs = Append(@, Error("duplicate include", "context", At, <<>>))]
      ELSE IF st.entered[p].ctx = Context THEN st
      ELSE [st EXCEPT !.errs = Append(@, Error("duplicate include", "context", At,
                                               <<[lab |-> "context", at |-> st.entered[p].at]>>))])
DoInclude ==
  LET st0 == [left |-> left, stack |-> Advance, entered |-> entered, errs |-> errs]
      st == IF Item.files = <<>>
            THEN [st0 EXCEPT !.errs = Append(@, Error("include failed", "no such file", At, <<>>))]
            ELSE Include(Item.files, st0)
  IN left' = st.left /\ stack' = st.stack /\ entered' = st.entered /\ errs' = st.errs

-----------------------------------------------------------------------------
TooLong(it) ==
  LET hits == SelectSeq(it.strs, LAMBDA s : s.n > maxl.n)
  IN [k \in 1..Len(hits) |->
       Error("string too long",
             "exceeds long_string_maxlines(" \o (IF maxl.set THEN "" ELSE "default ") \o ToString(maxl.n)
             \o ") - hint: would require option \"long_string_maxlines\" \"" \o ToString(hits[k].n) \o "\"",
             [file |-> Here.name, line |-> hits[k].line],
             IF maxl.set THEN <<[lab |-> "max allowed", at |-> maxl.at]>> ELSE <<>>)]

\* one declaration
Step ==
  /\ HasItem
  /\ warns' = warns \o TooLong(Item)
  /\ UNCHANGED files
  /\ Item.kind # "include" => stack' = Advance /\ UNCHANGED <<left, entered>>
  /\ Item.kind # "option" => UNCHANGED <<opts, maxl>>
  /\ CASE Item.kind = "dir" ->
            out' = Append(out, Loaded(Item)) /\ UNCHANGED <<tags, metas, plugins, errs>>
       [] Item.kind = "pushtag" ->
            tags' = Push(tags, Item.tag, At) /\ UNCHANGED <<metas, plugins, out, errs>>
       [] Item.kind = "poptag" ->
            /\ IF Item.tag \in DOMAIN tags
               THEN tags' = Pop(tags, Item.tag) /\ UNCHANGED errs
               ELSE Fail("invalid poptag", "missing corresponding pushtag", <<>>) /\ UNCHANGED tags
            /\ UNCHANGED <<metas, plugins, out>>
       [] Item.kind = "pushmeta" ->
            metas' = Push(metas, Item.key, [val |-> Item.val, at |-> At]) /\ UNCHANGED <<tags, plugins, out, errs>>
       [] Item.kind = "popmeta" ->
            /\ IF Item.key \in DOMAIN metas
               THEN metas' = Pop(metas, Item.key) /\ UNCHANGED errs
               ELSE Fail("invalid popmeta", "missing corresponding pushmeta", <<>>) /\ UNCHANGED metas
            /\ UNCHANGED <<tags, plugins, out>>
       [] Item.kind = "include" ->
            DoInclude /\ UNCHANGED <<tags, metas, plugins, out>>
       [] Item.kind = "option" ->
            SetOption /\ UNCHANGED <<tags, metas, plugins, out>>
       [] Item.kind = "plugin" ->
            plugins' = Append(plugins, [name |-> Item.name, config |-> Item.config]) /\ UNCHANGED <<tags, metas, out, errs>>
       [] Item.kind = "bad" ->
            Fail("*", "*", <<>>) /\ UNCHANGED <<tags, metas, plugins, out>>

EndFile ==
  /\ stack # <<>> /\ ~HasItem
  /\ stack' = FrontOf(stack)
  /\ UNCHANGED <<files, left, tags, metas, opts, plugins, out, errs, entered, maxl, warns>>

\* at the end, what is still pushed is in error: each tag, and each key once
Finished == stack = <<>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
LeftTags == {Error("invalid pushtag", "missing corresponding poptag", at, <<>>) :
               at \in UNION {{tags[t][k] : k \in 1..Len(tags[t])} : t \in DOMAIN tags}}
LeftMetas == {Error("invalid pushmeta", "missing corresponding popmeta", metas[k][1].at, <<>>) : k \in DOMAIN metas}
Errors == errs \o SeqOf(LeftTags) \o SeqOf(LeftMetas)
Accepted == Finished /\ Errors = <<>>
=============================================================================
