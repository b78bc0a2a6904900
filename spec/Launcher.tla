------------------------------ MODULE Launcher ------------------------------
(* What the launcher limabean does: choose a runtime, and become it.        *)
(*                                                                          *)
(* c: how it is started.                                                    *)
(*   root, uber, deps   the environment variables LIMABEAN_CLJ_LOCAL_ROOT,  *)
(*                      LIMABEAN_UBERJAR, LIMABEAN_CLJ_DEPS: <<v>> or << >> *)
(*   built              the uberjar given when it was built, or << >>       *)
(*   args               its arguments                                       *)
(*   jars               which uberjars there are                            *)
(*   java, clojure      the programs on the path: ok, failing (it ends with *)
(*                      status 1 whatever it is told), absent or unusable   *)
(*   end                how the application ends: a status, or - a signal   *)
(*   version            the version of this launcher                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES c, phase, rt, out, err, runs, exit
\* rt: the runtime chosen; out, err: lines printed; runs: programs run, each
\* [prog, args]; exit: the status at the end
lvars == <<c, phase, rt, out, err, runs, exit>>

NativeAccess == "--enable-native-access=ALL-UNNAMED"
Deps(coord) == "{:deps {io.github.tesujimath/limabean " \o coord
               \o (IF c.deps = <<>> THEN "" ELSE " " \o c.deps[1]) \o "}}"
Clojure(coord) == [prog |-> "clojure", jar |-> "", args |-> <<"-J" \o NativeAccess, "-Sdeps", Deps(coord), "-M", "-m", "limabean.main">>]
Java(jar) == [prog |-> "java", jar |-> jar, args |-> <<NativeAccess, "-jar", jar>>]
None == [prog |-> "", jar |-> "", args |-> <<>>]
State(prog) == IF prog = "java" THEN c.java ELSE c.clojure
Runs(prog) == State(prog) \in {"ok", "failing"}
Has(as, x) == \E k \in 1..Len(as) : as[k] = x

Begin(case) ==
  /\ c = case /\ phase = "start" /\ rt = None
  /\ out = <<>> /\ err = <<>> /\ runs = <<>> /\ exit = <<>>

(* The first which is defined: the local root, the uberjar, the uberjar it  *)
(* was built with; else the version of the launcher, from the repository.   *)
Choose ==
  /\ phase = "start"
  /\ rt' = IF c.root # <<>> THEN Clojure("{:local/root \"" \o c.root[1] \o "\"}")
           ELSE IF c.uber # <<>> THEN Java(c.uber[1])
           ELSE IF c.built # <<>> THEN Java(c.built[1])
           ELSE Clojure("{:mvn/version \"" \o c.version \o "\"}")
  /\ err' = IF rt'.prog = "java" /\ c.deps # <<>> THEN Append(err, "warning") ELSE err
  /\ phase' = IF c.args # <<>> /\ c.args[1] = "health" THEN "health" ELSE "chosen"
  /\ UNCHANGED <<c, out, runs, exit>>

Fail(said, what) == exit' = <<1>> /\ err' = said \o <<"error " \o what>> /\ phase' = "done"
\* whether the runtime is there, and what is, without running the application
Health ==
  /\ phase = "health"
  /\ runs' = IF Runs(rt.prog) THEN Append(runs, [prog |-> rt.prog, args |-> <<"--version">>]) ELSE runs
  /\ LET found == Append(err, "runtime") IN
     IF ~Runs(rt.prog) \/ (rt.prog = "java" /\ c.java = "failing") THEN Fail(err, rt.prog)
     ELSE IF rt.prog = "java" /\ rt.jar \notin c.jars THEN Fail(found, "uberjar")
     ELSE /\ exit' = <<0>> /\ phase' = "done"
          /\ err' = IF rt.prog = "java" THEN Append(found, "uberjar") ELSE found
  /\ UNCHANGED <<c, rt, out>>

Tell ==
  /\ phase = "chosen"
  /\ out' = IF Has(c.args, "--version") THEN Append(out, "version") ELSE out
  /\ err' = IF Has(c.args, "-v") \/ Has(c.args, "--verbose") THEN Append(err, "command") ELSE err
  /\ phase' = "told"
  /\ UNCHANGED <<c, rt, runs, exit>>

\* become the runtime
Exec ==
  /\ phase = "told"
  /\ IF Runs(rt.prog)
     THEN /\ runs' = Append(runs, [prog |-> rt.prog, args |-> rt.args \o c.args])
          /\ phase' = "running" /\ UNCHANGED <<err, exit>>
     ELSE Fail(err, rt.prog) /\ UNCHANGED runs
  /\ UNCHANGED <<c, rt, out>>

\* the application says something, and ends
Application ==
  /\ phase = "running"
  /\ out' = Append(out, "app") /\ err' = Append(err, "app")
  /\ exit' = <<IF State(rt.prog) = "failing" THEN 1 ELSE c.end>>
  /\ phase' = "done"
  /\ UNCHANGED <<c, rt, runs>>

Step == Choose \/ Health \/ Tell \/ Exec \/ Application
Done == phase = "done"
=============================================================================
