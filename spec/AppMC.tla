------------------------------- MODULE AppMC --------------------------------
(* Exhaustive exploration of App: every command line of up to Theme.depth   *)
(* words out of Theme.words, in each of Theme.worlds.                       *)
EXTENDS App, Json, IOUtils, TLC

Theme == ndJsonDeserialize(IOEnv.THEME)[1]
Words == {Theme.words[i] : i \in 1..Len(Theme.words)}
Extras == {Theme.extras[i] : i \in 1..Len(Theme.extras)}
Lines_(n) == UNION {[1..k -> Words] : k \in 0..n} \cup Extras
VARIABLE wid
MInit == /\ wid \in 1..Len(Theme.worlds)
         /\ \E a \in Lines_(Theme.worlds[wid].depth) : Begin([Theme.worlds[wid] EXCEPT !.args = a])
MNext == ANext /\ UNCHANGED wid /\ (Ended' => PrintT(<<"B", ToJson([world |-> wid, args |-> w.args])>>))
MSpec == MInit /\ [][MNext]_<<avars, wid>>
=============================================================================
