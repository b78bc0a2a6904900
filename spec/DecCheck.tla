------------------------------ MODULE DecCheck ------------------------------
(* The Java evaluation of Dec agrees with DecPure on small decimals. *)
EXTENDS Dec, TLC, FiniteSets
Ms == {-1005, -150, -25, -7, -1, 0, 1, 3, 4, 10, 15, 100, 250, 999}
D == {PNew(m, s) : m \in Ms, s \in 0..3}
L(p) == DNew(p.m, p.s)
ASSUME \A a \in D, b \in D :
         /\ DAdd(L(a), L(b)) = L(PAdd(a, b))
         /\ DSub(L(a), L(b)) = L(PSub(a, b))
         /\ DMul(L(a), L(b)) = L(PMul(a, b))
         /\ DCmp(L(a), L(b)) = PCmp(a, b)
         /\ (PDivOk(a, b) => DCmp(DMul(DDiv(L(a), L(b)), L(b)), L(a)) = 0)
ASSUME \A a \in D, s \in 0..5 : DRescale(L(a), s) = L(PRescale(a, s))
ASSUME \A a \in D : DNeg(L(a)) = L(PNeg(a)) /\ DAbs(L(a)) = L(PAbs(a)) /\ DSign(L(a)) \in {-1, 0, 1}
ASSUME DStr(DNew(-5, 2)) = "-0.05" /\ DStr(DNew(150, 2)) = "1.50" /\ DStr(DZero) = "0"
ASSUME PrintT(<<"DecCheck", Cardinality(D)>>)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
