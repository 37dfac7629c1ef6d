---------------------------- MODULE ElectionTrace ---------------------------
(* Judges recorded runs of clusters, one for each line of the file.           *)
EXTENDS ElectionHistory, Json, IOUtils, TLC

Hs == ndJsonDeserialize(IOEnv.HISTORIES)

VARIABLE i
Init == i = 0
Next == i < Len(Hs) /\ i' = i + 1

Some(S) == LET s == SetToSeq(S) IN SubSeq(s, 1, IF Len(s) < 4 THEN Len(s) ELSE 4)

Judged ==
  i = 0 \/ LET h == Hs[i]
               e == BadElection(h)
               m == BadMembership(h)
           IN IF e \cup m \cup Forgotten(h) = {} THEN TRUE ELSE LET t == [run |-> i, election |-> Some(e), membership |-> Some(m), forgotten |-> Some(Forgotten(h))] IN PrintT(ToJson(t))
=============================================================================
