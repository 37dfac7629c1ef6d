----------------------------- MODULE LockTrace -----------------------------
(* Judges recorded histories of handles, one for each line of the file.       *)
EXTENDS LockHistory, Json, IOUtils, TLC

Hs == ndJsonDeserialize(IOEnv.HISTORIES)

VARIABLE i
Init == i = 0
Next == i < Len(Hs) /\ i' = i + 1

Judged == i = 0 \/ LET b == Bad(Hs[i])
                       s == SetToSeq(b)
                       t == [run |-> i, bad |-> SubSeq(s, 1, IF Len(s) < 4 THEN Len(s) ELSE 4)]
                   IN IF b = {} THEN TRUE ELSE PrintT(ToJson(t))
=============================================================================
