-------------------------------- MODULE Dec --------------------------------
(* The decimal operators used by the specifications.  Their meaning is that *)
(* of DecPure; TLC overrides each with the method of the same name in       *)
(* Dec.java (mantissas, held as strings, up to 96 bits; division to 28     *)
(* digits).                                                                 *)
EXTENDS DecPure

DNew(m, s) == PNew(m, s)
DZero == DNew(0, 0)
DNeg(a) == PNeg(a)
DAbs(a) == PAbs(a)
DAdd(a, b) == PAdd(a, b)
DSub(a, b) == PSub(a, b)
DMul(a, b) == PMul(a, b)
DCmp(a, b) == PCmp(a, b)
DRescale(a, s) == PRescale(a, s)
DDiv(a, b) == CHOOSE q \in {PNew(m, s) : m \in -1000000..1000000, s \in 0..6} : PDivIs(a, b, q)
DSign(a) == DCmp(a, DZero)
DStr(a) == "?"                  \* decimal notation, as printed to the user

DEq(a, b) == DCmp(a, b) = 0
DLt(a, b) == DCmp(a, b) < 0
DLe(a, b) == DCmp(a, b) <= 0
DIsZero(a) == DSign(a) = 0
DSame(a, b) == a.s = b.s /\ DCmp(a, b) = 0      \* same notation
=============================================================================
