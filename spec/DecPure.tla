------------------------------ MODULE DecPure ------------------------------
(* Exact decimal arithmetic on records [m |-> mantissa, s |-> scale], i.e.  *)
(* the number m / 10^s.  The scale is part of the value a user sees: it is  *)
(* what the tolerance of a transaction or of a balance assertion is         *)
(* inferred from.  These definitions are the meaning of the operators of    *)
(* module Dec; TLC evaluates the latter by Dec.java, which agrees with them *)
(* (checked by DecCheck) and also copes with mantissas beyond 32 bits.      *)
EXTENDS Integers

PNew(m, s) == [m |-> m, s |-> s]
PZero == [m |-> 0, s |-> 0]

PAbsI(n) == IF n < 0 THEN -n ELSE n
PMaxI(a, b) == IF a > b THEN a ELSE b
PUp(a, s) == a.m * (10 ^ (s - a.s))          \* mantissa of a at scale s >= a.s

PNeg(a) == [m |-> -a.m, s |-> a.s]
PAbs(a) == [m |-> PAbsI(a.m), s |-> a.s]

\* zero is neutral: the other operand keeps its own scale
PAdd(a, b) ==
  IF a.m = 0 THEN b
  ELSE IF b.m = 0 THEN a
  ELSE LET s == PMaxI(a.s, b.s) IN [m |-> PUp(a, s) + PUp(b, s), s |-> s]
PSub(a, b) == PAdd(a, PNeg(b))

PMul(a, b) ==
  IF a.m = 0 \/ b.m = 0 THEN PZero ELSE [m |-> a.m * b.m, s |-> a.s + b.s]

PCmp(a, b) ==
  LET s == PMaxI(a.s, b.s)
      x == PUp(a, s)
      y == PUp(b, s)
  IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE 0

\* round half away from zero
PRescale(a, s) ==
  IF s >= a.s THEN [m |-> PUp(a, s), s |-> s]
  ELSE LET p == 10 ^ (a.s - s)
           q == (2 * PAbsI(a.m) + p) \div (2 * p)
       IN [m |-> IF a.m < 0 THEN -q ELSE q, s |-> s]

\* division, defined here where the quotient terminates within 6 digits
PDivOk(a, b) == /\ b.m # 0
                /\ \E k \in 0..6 : (PAbsI(a.m) * (10 ^ k)) % PAbsI(b.m) = 0
PDivIs(a, b, q) == PCmp(PMul(q, b), a) = 0
=============================================================================
