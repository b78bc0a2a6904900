-------------------------------- MODULE Text --------------------------------
(* Strings: names of accounts, currencies, labels. *)
EXTENDS Integers, Sequences

\* order of names; TLC evaluates this by Text.java (order of Unicode code points)
TLess(a, b) == CHOOSE x \in BOOLEAN : TRUE

\* c is account b or one of its sub-accounts; account names have colon-separated parts
IsSubOf(c, b) ==
  \/ c = b
  \/ /\ Len(c) > Len(b)
     /\ SubSeq(c, 1, Len(b) + 1) = b \o ":"

\* the part of the name of c which is below account b
Below(c, b) == SubSeq(c, Len(b) + 1, Len(c))
=============================================================================
