------------------------------- MODULE LockMC ------------------------------
EXTENDS Lock
A3 == {"a", "b", "c"}
P2 == {1, 2}
PO == [a \in A3 |-> IF a = "c" THEN 2 ELSE 1]
=============================================================================
