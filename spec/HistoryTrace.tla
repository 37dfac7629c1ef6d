---------------------------- MODULE HistoryTrace ----------------------------
(* Judges recorded histories, one for each line of the file.                  *)
EXTENDS History, Json, IOUtils

Hs == ndJsonDeserialize(IOEnv.HISTORIES)

VARIABLE i

Init == i = 0
Next == i < Len(Hs) /\ i' = i + 1

Some(S) == LET s == SetToSeq(S) IN SubSeq(s, 1, IF Len(s) < 4 THEN Len(s) ELSE 4)

Judged ==
  i = 0 \/ LET b == Bad(Hs[i])
           IN IF b = {} THEN TRUE
              ELSE LET t == Some(b) IN PrintT(ToJson([run |-> i, bad |-> t]))
=============================================================================
