------------------------------ MODULE LoaderMC ------------------------------
(* Exhaustive exploration of Loader over a small universe of declarations:  *)
(* the files are written while they are read, at most Depth declarations in *)
(* all, in every way.  The invariants are what users rely on, stated of the *)
(* declarations read, without reference to how they are kept.  The files of *)
(* each complete behaviour are printed, to be given to the real server.     *)
EXTENDS Loader, Json, IOUtils, SequencesExt

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
Universe == Theme.universe
Depth == Theme.depth
Names == Theme.files            \* [name, dir, readable] of the files there are

VARIABLES hist                  \* what was read: places [f, i], in order
mvars == <<hist>>

MInit == hist = <<>> /\ Begin([k \in 1..Len(Names) |-> Names[k] @@ [items |-> <<>>]])
RECURSIVE Sizes(_)
Sizes(k) == IF k = 0 THEN 0 ELSE Len(files[k].items) + Sizes(k - 1)
Written == Sizes(Len(files))
\* write one more declaration at the end of the file being read
Write(k) ==
  /\ stack # <<>> /\ ~HasItem /\ Written < Depth
  /\ LET i == Len(Here.items) + 1
         it == [Universe[k] EXCEPT !.line = i, !.u = k, !.strs = [j \in DOMAIN @ |-> [@[j] EXCEPT !.line = i]]]
     IN files' = [files EXCEPT ![Top.f].items = Append(@, it)]
  /\ UNCHANGED <<stack, left, tags, metas, opts, plugins, out, errs, entered, maxl, warns, hist>>
Read == Step /\ hist' = Append(hist, [f |-> Top.f, i |-> Top.i])
\* a file which others wait for ends when it can; the last when all is written
End == /\ EndFile /\ UNCHANGED hist
       /\ stack' = <<>> => PrintT(<<"B", [f \in 1..Len(files) |-> [i \in 1..Len(files[f].items) |-> files[f].items[i].u]]>>)
MNext == (\E k \in 1..Len(Universe) : Write(k)) \/ Read \/ End
MSpec == MInit /\ [][MNext]_<<lvars, mvars>>

(*************************** what users rely on ****************************)
It(p) == files[p.f].items[p.i]
N == Len(hist)
Kinds(K) == {k \in 1..N : It(hist[k]).kind \in K}
FilesRead == {1} \cup DOMAIN entered

\* C14, C15: each declaration of the root, and of what it includes, directly or
\* not, is read once; nothing else is
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {g \in 1..Len(files) : files[g].readable /\ \E f \in S : \E i \in 1..Len(files[f].items) :
                               files[f].items[i].kind = "include" /\ g \in Range(files[f].items[i].files)}
            IN IF T = S THEN S ELSE Reach(T)
ReadOnce == \A j, k \in 1..N : hist[j] = hist[k] => j = k
ReadAll == Finished => Range(hist) = UNION {{[f |-> f, i |-> i] : i \in 1..Len(files[f].items)} : f \in Reach({1})}
\* the declarations of a file come in order; what it includes comes in between
InPlace ==
  \A a, b \in 1..N :
    /\ (hist[a].f = hist[b].f /\ hist[a].i < hist[b].i) => a < b
    /\ (a < b /\ hist[a].f = hist[b].f /\ hist[b].i = hist[a].i + 1 /\ It(hist[a]).kind # "include") => b = a + 1
OutAll == LET ds == Kinds({"dir"}) IN
          /\ {[f |-> out[k].f, i |-> out[k].i] : k \in 1..Len(out)} = {hist[k] : k \in ds}
          /\ Len(out) = Cardinality(ds)
Dates == LET s == Sorted IN
         /\ {s[k] : k \in 1..Len(s)} = {out[k] : k \in 1..Len(out)} /\ Len(s) = Len(out)
         /\ \A k \in 1..(Len(s) - 1) :
              \/ s[k].date < s[k + 1].date
              \/ /\ s[k].date = s[k + 1].date
                 /\ \/ s[k].class < s[k + 1].class
                    \/ /\ s[k].class = s[k + 1].class
                       /\ \A a, b \in 1..N : (hist[a] = [f |-> s[k].f, i |-> s[k].i] /\ hist[b] = [f |-> s[k + 1].f, i |-> s[k + 1].i]) => a < b

\* C15: what is pushed applies until it is popped, in whatever file
Pushes(kind, x, a, b) == Cardinality({k \in a..b : It(hist[k]).kind = "push" \o kind /\ (IF kind = "tag" THEN It(hist[k]).tag ELSE It(hist[k]).key) = x})
Pops(kind, x, a, b) == Cardinality({k \in a..b : It(hist[k]).kind = "pop" \o kind /\ (IF kind = "tag" THEN It(hist[k]).tag ELSE It(hist[k]).key) = x})
AllTags == {It(hist[k]).tag : k \in Kinds({"pushtag", "poptag"})}
AllKeys == {It(hist[k]).key : k \in Kinds({"pushmeta", "popmeta"})}
\* a push at q is still in force at p
InForce(kind, x, q, p) == \A r \in q..p : Pushes(kind, x, q, r) > Pops(kind, x, q + 1, r)
At1(k) == CHOOSE p \in 1..N : hist[p] = [f |-> out[k].f, i |-> out[k].i]
TagsInForce ==
  \A k \in 1..Len(out) : LET own == Range(It(hist[At1(k)]).d.tags) IN
    /\ own \subseteq out[k].tags
    /\ \A t \in AllTags : (t \in out[k].tags <=> t \in own \/ \E q \in 1..At1(k) :
                             It(hist[q]).kind = "pushtag" /\ It(hist[q]).tag = t /\ InForce("tag", t, q, At1(k)))
MetaInForce ==
  \A k \in 1..Len(out) : LET d == It(hist[At1(k)]).d IN
    /\ \A j \in 1..Len(d.meta) : d.meta[j] \in out[k].meta
    /\ \A m \in out[k].meta : \/ m \in Range(d.meta)
                              \/ /\ m[1] \notin Own(d.meta)
                                 /\ \E q \in 1..At1(k) :
                                      /\ It(hist[q]).kind = "pushmeta" /\ It(hist[q]).key = m[1] /\ It(hist[q]).val = m[2]
                                      /\ InForce("meta", m[1], q, At1(k))
                                      /\ \A r \in (q + 1)..At1(k) :
                                           ~(It(hist[r]).kind = "pushmeta" /\ It(hist[r]).key = m[1] /\ InForce("meta", m[1], r, At1(k)))
    /\ \A x \in AllKeys : (\E q \in 1..At1(k) : It(hist[q]).kind = "pushmeta" /\ It(hist[q]).key = x /\ InForce("meta", x, q, At1(k)))
                          => \E m \in out[k].meta : m[1] = x
    /\ \A m1, m2 \in out[k].meta : m1[1] = m2[1] => m1 = m2
Matched(kind, x) == /\ \A r \in 1..N : Pops(kind, x, 1, r) <= Pushes(kind, x, 1, r)
                    /\ Pops(kind, x, 1, N) = Pushes(kind, x, 1, N)

\* C16: what is served of options is what they were given, once
OptionItems(name) == {k \in Kinds({"option"}) : It(hist[k]).name = name}
OptionsGiven ==
  Accepted =>
    \A k \in Kinds({"option"}) : LET it == It(hist[k]) IN
      /\ it.name \in DOMAIN OptionNames /\ ValidOption(it)
      /\ LET o == OptionNames[it.name] IN
         CASE o.cls \in {"map", "path", "set", "lines"} -> TRUE
           [] o.cls = "type" -> \E x \in Options : x.key = o.key
           [] o.cls \in Tabled -> OptionItems(it.name) = {k} /\ [key |-> o.key, k |-> "", v |-> Table(o.cls)[it.raw]] \in Options
           [] OTHER -> OptionItems(it.name) = {k} /\ [key |-> o.key, k |-> "", v |-> it.val[1]] \in Options
OptionsServed == \A x \in Options : Cardinality({y \in Options : y.key = x.key /\ y.k = x.k}) = 1
OptionsOnly == \A x \in opts : \E k \in Kinds({"option"}) : It(hist[k]).name \in DOMAIN OptionNames /\ OptionNames[It(hist[k]).name].key \in {x.key, "inferred-tolerance-default"}
Currencies == Accepted => {x.k : x \in {y \in Options : y.key = "operating-currency"}} = {It(hist[k]).raw : k \in OptionItems("operating_currency")}

\* C17
PluginsGiven == /\ Len(plugins) = Cardinality(Kinds({"plugin"}))
                /\ \A k \in 1..Len(plugins) : plugins[k].name = It(hist[CHOOSE p \in Kinds({"plugin"}) :
                     Cardinality({q \in Kinds({"plugin"}) : q <= p}) = k]).name

\* C28: accepted if and only if nothing is wrong
Fine == /\ \A x \in AllTags : Matched("tag", x)
        /\ \A x \in AllKeys : Matched("meta", x)
        /\ Kinds({"bad"}) = {}
        /\ \A k \in Kinds({"option"}) : It(hist[k]).name \in DOMAIN OptionNames /\ ValidOption(It(hist[k]))
        /\ \A j, k \in Kinds({"option"}) :
             (j # k /\ It(hist[j]).name = It(hist[k]).name) =>
               CASE OptionNames[It(hist[j]).name].cls \in {"type", "lines"} -> TRUE
                 [] OptionNames[It(hist[j]).name].cls = "set" -> It(hist[j]).raw # It(hist[k]).raw
                 [] OptionNames[It(hist[j]).name].cls = "path" ->
                      It(hist[j]).raw # It(hist[k]).raw \/ (~It(hist[j]).abs /\ files[hist[j].f].dir # files[hist[k].f].dir)
                 [] OptionNames[It(hist[j]).name].cls = "map" -> It(hist[j]).val[1][1] # It(hist[k]).val[1][1]
                 [] OTHER -> FALSE
        /\ \A k \in Kinds({"include"}) : LET fs == It(hist[k]).files IN
             fs # <<>> /\ \A j \in 1..Len(fs) : fs[j] # 1 /\ files[fs[j]].readable
Reported == Finished => /\ Accepted => Fine
                        /\ Fine => \A k \in 1..Len(errs) : errs[k].msg = "duplicate include"
Located == \A k \in 1..Len(errs) : \E p \in 1..N : errs[k].at = [file |-> files[hist[p].f].name, line |-> hist[p].i]
OneEach == Finished => \A k \in Kinds({"bad", "poptag", "popmeta", "option"}) :
             Cardinality({j \in 1..Len(errs) : errs[j].at = [file |-> files[hist[k].f].name, line |-> hist[k].i]}) <= 1
Warned ==
  (\A k \in Kinds({"option"}) : It(hist[k]).name # "long_string_maxlines") =>
    Len(warns) = Cardinality({<<k, j>> \in (1..N) \X (1..8) : j <= Len(It(hist[k]).strs) /\ It(hist[k]).strs[j].n > 64})
WarnedOver == \A k \in 1..Len(warns) : \E p \in 1..N : \E j \in 1..Len(It(hist[p]).strs) :
                /\ warns[k].at = [file |-> files[hist[p].f].name, line |-> It(hist[p]).strs[j].line]
                /\ warns[k].rel # <<>> => \E q \in Kinds({"option"}) : q <= p /\ It(hist[q]).name = "long_string_maxlines" /\ It(hist[q]).val[1] < It(hist[p]).strs[j].n
=============================================================================
