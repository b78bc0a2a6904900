----------------------------- MODULE LauncherMC -----------------------------
(* Exhaustive exploration of Launcher: every combination of what a theme    *)
(* gives, each printed, to be replayed.                                     *)
EXTENDS Launcher, Json, IOUtils

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
Values(s) == {s[k] : k \in 1..Len(s)}
Args == UNION {[1..n -> Values(Theme.words)] : n \in 0..Theme.length}

MInit == \E root \in Values(Theme.root), uber \in Values(Theme.uber), built \in Values(Theme.built), deps \in Values(Theme.deps),
            java \in Values(Theme.java), clojure \in Values(Theme.clojure), end \in Values(Theme.end), args \in Args :
           LET case == [root |-> root, uber |-> uber, built |-> built, deps |-> deps, java |-> java, clojure |-> clojure, end |-> end,
                        args |-> args, jars |-> Values(Theme.jars), version |-> Theme.version]
           IN Begin(case) /\ PrintT(<<"B", ToJson([case EXCEPT !.jars = Theme.jars])>>)
MNext == Step
MSpec == MInit /\ [][MNext]_lvars

(*************************** what users rely on ****************************)
\* C26: what is run depends on the first variable which is defined only
App == Done /\ Len(runs) = 1 /\ runs[1].args # <<"--version">>
IsHealth == c.args # <<>> /\ c.args[1] = "health"
Chosen ==
  Done => \A k \in 1..Len(runs) :
    runs[k].prog = IF c.root # <<>> THEN "clojure" ELSE IF c.uber # <<>> \/ c.built # <<>> THEN "java" ELSE "clojure"
Precedence ==
  App => LET as == runs[1].args IN
    /\ c.root # <<>> => Len(as) >= 3 /\ as[3] = "{:deps {io.github.tesujimath/limabean {:local/root \"" \o c.root[1] \o "\"}"
                                          \o (IF c.deps = <<>> THEN "" ELSE " " \o c.deps[1]) \o "}}"
    /\ c.root = <<>> /\ c.uber # <<>> => SubSeq(as, 2, 3) = <<"-jar", c.uber[1]>>
    /\ c.root = <<>> /\ c.uber = <<>> /\ c.built # <<>> => SubSeq(as, 2, 3) = <<"-jar", c.built[1]>>
    /\ c.root = <<>> /\ c.uber = <<>> /\ c.built = <<>> =>
         as[3] = "{:deps {io.github.tesujimath/limabean {:mvn/version \"" \o c.version \o "\"}"
                 \o (IF c.deps = <<>> THEN "" ELSE " " \o c.deps[1]) \o "}}"
Warned == Done => (Has(err, "warning") <=> c.deps # <<>> /\ c.root = <<>> /\ (c.uber # <<>> \/ c.built # <<>>))
\* C27: the arguments are passed on, all of them, last and in order; the application is run once if at all
Passed == App => LET as == runs[1].args n == Len(c.args) IN SubSeq(as, Len(as) - n + 1, Len(as)) = c.args
RunOnce == Len(runs) <= 1
Failed == \E x \in {"java", "clojure", "uberjar"} : Has(err, "error " \o x)
Ends == Done => \/ App /\ exit = <<IF State(rt.prog) = "failing" THEN 1 ELSE c.end>> /\ ~Failed
                \/ ~App /\ (exit = <<1>> <=> Failed)
NeverBoth == Done => (Has(err, "app") <=> App)
HealthOnly == IsHealth => \A k \in 1..Len(runs) : runs[k].args = <<"--version">>
Healthy == (Done /\ IsHealth /\ exit = <<0>>) => Runs(rt.prog) /\ Has(err, "runtime") /\ (rt.prog = "java" => rt.jar \in c.jars /\ Has(err, "uberjar"))
Told == Done /\ ~IsHealth => /\ (Has(err, "command") <=> Has(c.args, "-v") \/ Has(c.args, "--verbose"))
                             /\ (Has(out, "version") <=> Has(c.args, "--version"))
\* said before the application says anything
First(s, x) == \A j, k \in 1..Len(s) : s[j] = x /\ s[k] = "app" => j < k
Before == First(err, "command") /\ First(err, "warning") /\ First(out, "version")
=============================================================================
