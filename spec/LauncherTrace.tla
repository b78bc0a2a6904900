---------------------------- MODULE LauncherTrace ---------------------------
(* Checks what the real launcher did against Launcher.                      *)
(* A case is [id, c, obs]; obs is [out, err, runs, exit, same, stopped]:    *)
(* what it printed, line by line, as Launcher calls it; the programs which  *)
(* were run; the status; whether they got its environment, directory and    *)
(* input; whether they ended when it was ended.                             *)
EXTENDS Launcher, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Prop == IOEnv.PROP
VARIABLES cid, flags, fin
tvars == <<cid, flags, fin>>
Obs == Cases[cid].obs
Given(x) == [x EXCEPT !.jars = {x.jars[k] : k \in 1..Len(x.jars)}]

TInit == cid \in 1..Len(Cases) /\ flags = {} /\ fin = FALSE /\ Begin(Given(Cases[cid].c))
Is(x) == x \in {"warning"}
Only(s) == SelectSeq(s, Is)
Rest(s) == SelectSeq(s, LAMBDA x : ~Is(x))
IsPrefix(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Judge ==
  /\ Done /\ ~fin
  /\ LET N == Len(rt.args)
         \* which runtime: its program, and how it is started
         which == /\ Len(Obs.runs) = Len(runs)
                  /\ \A k \in 1..Len(runs) : Obs.runs[k].prog = runs[k].prog
                  /\ (runs # <<>> /\ runs[1].args # <<"--version">>) => IsPrefix(rt.args, Obs.runs[1].args)
                  /\ Only(Obs.err) = Only(err)
         how == /\ Len(Obs.runs) = Len(runs)
                /\ \A k \in 1..Len(runs) : LET as == Obs.runs[k].args n == Len(runs[k].args) - N IN
                     IF runs[k].args = <<"--version">> THEN as = runs[k].args
                     ELSE n <= Len(as) /\ SubSeq(as, Len(as) - n + 1, Len(as)) = c.args /\ Len(as) = Len(runs[k].args)
                /\ Obs.out = out /\ Rest(Obs.err) = Rest(err) /\ Obs.exit = exit[1] /\ Obs.same /\ Obs.stopped
         v == (IF which THEN {} ELSE {"C26"}) \cup (IF how THEN {} ELSE {"C27"})
     IN flags' = v /\ PrintT(<<"RUN", Cases[cid].id, rt.prog, exit[1], v>>)
  /\ fin' = TRUE
  /\ UNCHANGED <<lvars, cid>>
TNext == (Step /\ UNCHANGED tvars) \/ Judge
TSpec == TInit /\ [][TNext]_<<lvars, tvars>>
Holds == Prop \notin flags
=============================================================================
