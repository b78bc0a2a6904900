-------------------------------- MODULE App ---------------------------------
(* One run of the application (clj/src/limabean/main.clj, app.clj and        *)
(* adapter/user_clj.clj): the command line is parsed, and either refused or  *)
(* answered at once, or the beanfile is loaded, then the user's own code     *)
(* from $LIMABEAN_USER_CLJ, and then one expression is evaluated, or one     *)
(* after the other at the prompt.                                            *)
(*                                                                           *)
(* A world is [args, env, beans, user, ufiles, exprs, session]:              *)
(*   args     the words of the command line                                  *)
(*   env      $LIMABEAN_BEANFILE, if set                                     *)
(*   beans    what is there: [path, is, raw, ok, final], a beanfile or not   *)
(*   user     $LIMABEAN_USER_CLJ, if set                                     *)
(*   ufiles   files of code: [path, forms]                                   *)
(*   exprs    what expressions mean: [text, form]                            *)
(*   session  what is entered at the prompt: forms                           *)
(* A form is [does, arg, val]; val is what it shows as at the prompt.        *)
EXTENDS Naturals, Integers, Sequences

VARIABLES w,       \* the world
          phase,   \* "parse", "decide", "read", "load", "user", "form", "eval", "prompt", "end"
          left,    \* words not yet parsed
          opts,    \* [help, version : BOOLEAN, beanfile, eval : at most one]
          rest,    \* words which are no options
          errs,    \* what is wrong with the options
          out, err,\* what is printed, and what is printed to standard error
          code,    \* the exit status, at the end
          beans,   \* beanfiles loaded, one after the other
          tried,   \* user files loaded
          forms,   \* what is left of the user file being loaded
          home,    \* whether its definitions go where expressions see them
          mine,    \* what users' code defined, if any
          exc,     \* message of the exception kept, if any
          did      \* number of expressions evaluated
avars == <<w, phase, left, opts, rest, errs, out, err, code, beans, tried, forms, home, mine, exc, did>>

\* ---------------------------------------------------------------- texts
Ch(s, i) == SubSeq(s, i, i)
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Tail_(s, n) == SubSeq(s, n, Len(s))
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)
RECURSIVE Quoted(_, _)
Quoted(s, i) == IF i > Len(s) THEN "" ELSE (IF Ch(s, i) \in {"\"", "\\"} THEN "\\" ELSE "") \o Ch(s, i) \o Quoted(s, i + 1)
Quote(s) == "\"" \o Quoted(s, 1) \o "\""
RECURSIVE Joined(_, _)
Joined(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Joined(Tail(q), sep)
RECURSIVE Split(_)
Split(s) == LET i == Find(s, ":", 1) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(Tail_(s, i + 1))
\* no empty ones at the end, except of an empty text
RECURSIVE Trimmed(_)
Trimmed(q) == IF q # <<>> /\ q[Len(q)] = "" THEN Trimmed(SubSeq(q, 1, Len(q) - 1)) ELSE q
Paths(s) == IF s = "" THEN <<"">> ELSE Trimmed(Split(s))

\* a line of standard error: exactly, or anything after that, or lines nobody specifies
Is(s) == [t |-> "is", s |-> s]
From(s) == [t |-> "from", s |-> s]
Reports == [t |-> "any", s |-> ""]

Options == <<
  [short |-> "-h", long |-> "--help", arg |-> "", what |-> "Help"],
  [short |-> "-v", long |-> "--verbose", arg |-> "", what |-> "Verbose"],
  [short |-> "", long |-> "--version", arg |-> "", what |-> "Show version and exit"],
  [short |-> "", long |-> "--beanfile", arg |-> "PATH", what |-> "path to Beancount file, default $LIMABEAN_BEANFILE"],
  [short |-> "", long |-> "--eval", arg |-> "EXPR", what |-> "Evaluate expression then exit"]>>
Named(n) == {i \in 1..Len(Options) : n \in {Options[i].short, Options[i].long} /\ n # ""}
Usage == <<"limabean: usage: limabean [options]", "", "Options:",
           "  -h, --help           Help",
           "  -v, --verbose        Verbose",
           "      --version        Show version and exit",
           "      --beanfile PATH  path to Beancount file, default $LIMABEAN_BEANFILE",
           "      --eval EXPR      Evaluate expression then exit">>

\* ---------------------------------------------------------------- command line
Begin(world) ==
  /\ w = world /\ phase = "parse" /\ left = world.args
  /\ opts = [help |-> FALSE, version |-> FALSE, beanfile |-> <<>>, eval |-> <<>>]
  /\ rest = <<>> /\ errs = <<>> /\ out = <<>> /\ err = <<>> /\ code = -1
  /\ beans = <<>> /\ tried = <<>> /\ forms = <<>> /\ home = TRUE /\ mine = <<>> /\ exc = <<>> /\ did = 0

\* the option n, with what it is given
Given(n, v, more) ==
  LET S == Named(n)
      o == Options[CHOOSE i \in S : TRUE]
  IN /\ left' = more
     /\ CASE S = {} -> errs' = Append(errs, "Unknown option: " \o Quote(n)) /\ UNCHANGED opts
          [] S # {} /\ o.arg # "" /\ v = <<>> -> errs' = Append(errs, "Missing required argument for " \o Quote(n \o " " \o o.arg)) /\ UNCHANGED opts
          [] OTHER -> /\ UNCHANGED errs
                      /\ opts' = CASE o.long = "--help" -> [opts EXCEPT !.help = TRUE]
                                   [] o.long = "--version" -> [opts EXCEPT !.version = TRUE]
                                   [] o.long = "--beanfile" -> [opts EXCEPT !.beanfile = v]
                                   [] o.long = "--eval" -> [opts EXCEPT !.eval = v]
                                   [] OTHER -> opts
     /\ UNCHANGED <<w, phase, rest, out, err, code, beans, tried, forms, home, mine, exc, did>>
\* --option=value, with no blank before the =
Equals(x) == \E i \in 4..Len(x) : Ch(x, i) = "=" /\ \A j \in 3..i - 1 : Ch(x, j) # " "
Wants(n) == \E i \in Named(n) : Options[i].arg # ""

Parse ==
  /\ phase = "parse" /\ left # <<>>
  /\ LET x == left[1]
         more == Tail(left)
         next == IF more = <<>> THEN <<>> ELSE <<more[1]>>
         after == IF more = <<>> THEN <<>> ELSE Tail(more)
         eq == Find(x, "=", 1)
         c == "-" \o SubSeq(x, 2, 2)
         cs == Tail_(x, 3)
     IN CASE x = "--" -> /\ rest' = rest \o more /\ left' = <<>>
                         /\ UNCHANGED <<w, phase, opts, errs, out, err, code, beans, tried, forms, home, mine, exc, did>>
          [] x # "--" /\ Starts(x, "--") /\ Equals(x) -> Given(SubSeq(x, 1, eq - 1), <<Tail_(x, eq + 1)>>, more)
          [] x # "--" /\ Starts(x, "--") /\ ~Equals(x) -> IF Wants(x) THEN Given(x, next, after) ELSE Given(x, <<>>, more)
          [] ~Starts(x, "--") /\ Starts(x, "-") /\ Len(x) > 1 ->      \* letters, one by one
               IF Wants(c) THEN IF cs = "" THEN Given(c, next, after) ELSE Given(c, <<cs>>, more)
               ELSE Given(c, <<>>, IF cs = "" THEN more ELSE <<"-" \o cs>> \o more)
          [] OTHER -> /\ rest' = Append(rest, x) /\ left' = more
                      /\ UNCHANGED <<w, phase, opts, errs, out, err, code, beans, tried, forms, home, mine, exc, did>>

Beanfile == IF opts.beanfile # <<>> THEN opts.beanfile ELSE w.env
There(p) == \E i \in 1..Len(w.beans) : w.beans[i].path = p /\ w.beans[i].is = "file"
Lines(q) == [i \in 1..Len(q) |-> Is(q[i])]

Quit(n, told) ==
  /\ phase' = "end" /\ code' = n /\ err' = err \o told
  /\ UNCHANGED <<w, left, opts, rest, errs, out, beans, tried, forms, home, mine, exc, did>>
\* what is wrong is told, the first of these
Decide ==
  /\ phase = "parse" /\ left = <<>>
  /\ CASE opts.help -> Quit(0, Lines(Usage))
       [] ~opts.help /\ errs # <<>> -> Quit(1, Lines(<<"limabean: argument parsing errors:">> \o errs))
       [] ~opts.help /\ errs = <<>> /\ opts.version ->
            /\ phase' = "end" /\ code' = 0 /\ out' = <<"limabean.clj VERSION">>
            /\ UNCHANGED <<w, left, opts, rest, errs, err, beans, tried, forms, home, mine, exc, did>>
       [] OTHER ->
            IF Beanfile = <<>> THEN Quit(1, Lines(<<"limabean: --beanfile or $LIMABEAN_BEANFILE is required">>))
            ELSE IF ~There(Beanfile[1]) THEN Quit(1, Lines(<<"limabean: no such beanfile " \o Beanfile[1]>>))
            ELSE IF rest # <<>> THEN Quit(1, Lines(<<"superfluous arguments: " \o Joined(rest, " ")>>))
            ELSE /\ phase' = IF opts.eval # <<>> THEN "read" ELSE "load"
                 /\ UNCHANGED <<w, left, opts, rest, errs, out, err, code, beans, tried, forms, home, mine, exc, did>>

\* ---------------------------------------------------------------- running
Meaning(text) ==
  LET S == {i \in 1..Len(w.exprs) : w.exprs[i].text = text} IN
  IF S = {} THEN [does |-> "unresolved", arg |-> "", val |-> ""] ELSE w.exprs[CHOOSE i \in S : TRUE].form
\* an expression is read before anything is loaded
Read ==
  /\ phase = "read"
  /\ LET f == Meaning(opts.eval[1]) IN
     IF f.does = "unreadable" THEN Quit(1, <<Is("Exception: " \o f.arg), Reports>>)
     ELSE phase' = "load" /\ UNCHANGED <<w, left, opts, rest, errs, out, err, code, beans, tried, forms, home, mine, exc, did>>

Number(n) == CASE n = 0 -> "0" [] n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4" [] n = 5 -> "5" [] n = 6 -> "6" [] n = 7 -> "7" [] n = 8 -> "8" [] n = 9 -> "9"
Found(p) == w.beans[CHOOSE i \in 1..Len(w.beans) : w.beans[i].path = p]
Told(b) == <<Is("[limabean] " \o Number(b.raw) \o " directives loaded from " \o b.path)>>
           \o (IF b.ok THEN <<Is("[limabean] " \o Number(b.final) \o " directives resulting from booking and running plugins")>> ELSE <<Reports>>)
Load ==
  /\ phase = "load"
  /\ LET b == Found(Beanfile[1]) IN beans' = Append(beans, b) /\ err' = err \o Told(b)
  /\ phase' = "user"
  /\ UNCHANGED <<w, left, opts, rest, errs, out, code, tried, forms, home, mine, exc, did>>
\* how many directives there are: none after an error
Count == LET b == beans[Len(beans)] IN IF b.ok THEN Number(b.final) ELSE "0"

\* what a form does: what it prints, the exception it ends by if any
Says(f) ==
  CASE f.does = "say" -> <<f.arg>>
    [] f.does = "count" -> <<Count>>
    [] f.does = "mine" /\ mine # <<>> -> <<mine[1]>>
    [] f.does = "exc" -> IF exc = <<>> THEN <<"nil">> ELSE exc
    [] OTHER -> <<>>
Fails(f) ==
  CASE f.does \in {"throw", "unreadable"} -> <<Is("Exception: " \o f.arg)>>
    [] f.does = "mine" /\ mine = <<>> -> <<Is("Exception: not mine")>>
    [] f.does = "unresolved" -> <<From("Exception: ")>>
    [] f.does = "load" /\ ~There(f.arg) -> <<Is("Exception: pod/start failed")>>
    [] OTHER -> <<>>

UserFiles == IF w.user = <<>> THEN <<>> ELSE Paths(w.user[1])
User ==
  /\ phase = "user"
  /\ IF Len(tried) = Len(UserFiles)
     THEN /\ phase' = IF opts.eval # <<>> THEN "eval" ELSE "prompt"
          /\ UNCHANGED <<tried, forms, home, err, exc>>
     ELSE LET p == UserFiles[Len(tried) + 1]
              S == {i \in 1..Len(w.ufiles) : w.ufiles[i].path = p}
          IN /\ tried' = Append(tried, p) /\ home' = TRUE
             /\ IF S = {} THEN LET m == p \o " (No such file or directory)" IN
                               /\ err' = err \o Lines(<<"Failed to load " \o p \o " from $LIMABEAN_USER_CLJ", "Exception: " \o m>>)
                               /\ exc' = <<m>> /\ phase' = "user" /\ UNCHANGED forms
                ELSE forms' = w.ufiles[CHOOSE i \in S : TRUE].forms /\ phase' = "form" /\ UNCHANGED <<err, exc>>
  /\ UNCHANGED <<w, left, opts, rest, errs, out, code, beans, mine, did>>
\* one form of a user file; what is behind a failing one is not done
Form ==
  /\ phase = "form"
  /\ IF forms = <<>> THEN phase' = "user" /\ UNCHANGED <<forms, home, mine, exc, out, err>>
     ELSE LET f == forms[1]
              bad == Fails(f)
          IN /\ out' = out \o Says(f)
             /\ mine' = IF f.does = "def" /\ home THEN <<f.arg>> ELSE mine
             /\ home' = (home /\ f.does # "away")
             /\ forms' = IF bad = <<>> THEN Tail(forms) ELSE <<>>
             /\ phase' = IF bad = <<>> THEN "form" ELSE "user"
             /\ IF bad = <<>> THEN UNCHANGED <<err, exc>>
                ELSE /\ err' = err \o Lines(<<"Failed to load " \o tried[Len(tried)] \o " from $LIMABEAN_USER_CLJ">>) \o bad
                     /\ exc' = <<Tail_(bad[1].s, 12)>>
  /\ UNCHANGED <<w, left, opts, rest, errs, code, beans, tried, did>>

Eval ==
  /\ phase = "eval"
  /\ LET f == Meaning(opts.eval[1])
         bad == Fails(f)
     IN /\ out' = out \o Says(f)
        /\ IF bad = <<>> THEN code' = 0 /\ UNCHANGED err ELSE code' = 1 /\ err' = err \o bad \o <<Reports>>
  /\ phase' = "end" /\ did' = did + 1
  /\ UNCHANGED <<w, left, opts, rest, errs, beans, tried, forms, home, mine, exc>>

\* at the prompt nothing ends the session but its end; what can't be loaded leaves nothing of what was loaded before
Prompt ==
  /\ phase = "prompt"
  /\ IF did = Len(w.session) THEN phase' = "end" /\ code' = 0 /\ UNCHANGED <<out, err, beans, mine, exc, did>>
     ELSE LET f == w.session[did + 1]
              bad == Fails(f)
          IN /\ did' = did + 1
             /\ out' = out \o Says(f) \o (IF bad = <<>> THEN <<"=> " \o f.val>> ELSE <<>>)
             /\ mine' = IF f.does = "def" THEN <<f.arg>> ELSE mine
             /\ exc' = IF bad = <<>> THEN exc ELSE <<Tail_(bad[1].s, 12)>>
             /\ beans' = IF f.does = "load" THEN Append(beans, Found(f.arg)) ELSE beans
             /\ err' = err \o bad \o (IF f.does = "load" /\ bad = <<>> THEN Told(Found(f.arg)) ELSE <<>>)
             /\ UNCHANGED <<phase, code>>
  /\ UNCHANGED <<w, left, opts, rest, errs, tried, forms, home>>

ANext == Parse \/ Decide \/ Read \/ Load \/ User \/ Form \/ Eval \/ Prompt

\* ---------------------------------------------------------------- properties
Ended == phase = "end"
\* a run ends once, by 0 unless something was told to be wrong
Status == /\ code \in {-1, 0, 1} /\ (Ended <=> code # -1)
          /\ (code = 1 => err # <<>>)
\* nothing is loaded, and nobody's code run, unless the command line is right
RefusedBefore == (errs # <<>> \/ opts.help \/ (opts.version /\ phase # "parse") \/ (phase # "parse" /\ rest # <<>>))
                   => beans = <<>> /\ tried = <<>> /\ did = 0
\* the option is before the environment; the first beanfile is the one asked for
Asked == beans # <<>> => beans[1].path = (IF opts.beanfile # <<>> THEN opts.beanfile[1] ELSE w.env[1])
\* users' files are loaded after the beanfile, each in its turn, and all of them before anything is evaluated
InOrder == /\ tried = SubSeq(UserFiles, 1, Len(tried))
           /\ (tried # <<>> => beans # <<>>)
           /\ (did > 0 => tried = UserFiles)
\* every user file which fails is told
FailuresTold == \A i \in 1..Len(tried) :
                  (~\E j \in 1..Len(w.ufiles) : w.ufiles[j].path = tried[i]) =>
                    \E k \in 1..Len(err) : err[k] = Is("Failed to load " \o tried[i] \o " from $LIMABEAN_USER_CLJ")
\* one expression and no prompt, or all that is entered
AllDone == (Ended /\ beans # <<>>) => did = IF opts.eval # <<>> THEN 1 ELSE Len(w.session)
\* an error in the beanfile is no failure of the run
BeanfileErrors == (Ended /\ beans # <<>> /\ code = 1) => opts.eval # <<>>
=============================================================================
