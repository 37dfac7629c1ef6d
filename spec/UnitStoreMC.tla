---------------------------- MODULE UnitStoreMC ----------------------------
(***************************************************************************)
(* Exhaustive check of UnitStore on small bounds: what the specification   *)
(* promises follows from its actions in every reachable state, and every   *)
(* step respects the promises that relate two states.                      *)
(***************************************************************************)
EXTENDS UnitStore, TLC

CONSTANTS MaxMsgs, MaxTime, MaxGrp, Wide

AB == <<"a", "b">>
Pats  == IF Wide THEN {AB, <<"a", Wild>>, <<"a", Multi>>} ELSE {AB, <<"a", Multi>>}
Cs    == {0, 1}
Qs    == {AB, <<"a">>}
TTLs  == {0, 1}
Steps == IF Wide THEN {1, 10} ELSE {10}

VARIABLE last          \* name of the last action
mvars == <<now, msgs, open, mutable, ngrp, last>>

Room(n) == Len(msgs) + n <= MaxMsgs

MInit == Init /\ mutable \in BOOLEAN /\ last = "init"

MNext ==
  \/ \E d \in Steps : now + d <= MaxTime /\ Advance(d) /\ last' = "adv"
  \/ Room(1) /\ NewID /\ last' = "newid"
  \/ Room(1) /\ \E t \in Pats, c \in Cs, x \in TTLs : Put(t, c, x) /\ last' = "put"
  \/ \E n \in Ids, t \in Pats, c \in Cs : PutWithID(n, t, c, 0) /\ last' = "put"
  \/ \E n \in Ids : Delete(n) /\ last' = "del"
  \/ /\ Room(2) /\ ngrp < MaxGrp
     /\ \E t \in {AB}, u \in Pats, c \in Cs :
          LET ops == <<[op |-> "put", topic |-> t, con |-> c, ttl |-> 0],
                       [op |-> "put", topic |-> u, con |-> c, ttl |-> 1]>>
          IN  \/ Commit(ops) /\ last' = "commit"
              \/ Rollback(ops) /\ last' = "rollback"
  \/ Sync /\ last' = "sync"
  \/ Close /\ last' = "close"
  \/ \E mu \in BOOLEAN : Open(mu) /\ last' = "open"
  \/ /\ open
     /\ \E s \in SUBSET {n \in Ids : msgs[n].st = "live" /\ ~msgs[n].dput},
           u \in SUBSET {n \in Ids : msgs[n].st = "dead" /\ ~msgs[n].ddel} : Crash(s, u) /\ last' = "crash"

MSpec == MInit /\ [][MNext]_mvars

---------------------------------------------------------------------------
Set(s) == {s[i] : i \in 1..Len(s)}
Big == 1000

TypeOK == /\ now \in Nat /\ open \in BOOLEAN
          /\ \A n \in Ids : msgs[n].st \in {"idle", "live", "dead", "void"}

\* exactly the live, unexpired messages of the contract whose pattern covers the topic
CompleteAndSound == \A q \in Qs, c \in Cs : \A n \in Ids :
   n \in Set(Result(q, c, 0, Big)) <=>
       (msgs[n].st = "live" /\ ~Expired(msgs[n]) /\ msgs[n].con = c /\ Covers(msgs[n].topic, q))
\* most recent first, each once
Ordered == \A q \in Qs, c \in Cs : LET r == Result(q, c, 0, Big) IN
   \A i \in 1..(Len(r) - 1) : r[i] > r[i + 1]
\* a limit keeps the most recent
Prefix == \A q \in Qs, c \in Cs, l \in 1..2 :
   LET r == Result(q, c, 0, Big) s == Result(q, c, 0, l) IN
   /\ Len(s) = (IF Len(r) < l THEN Len(r) ELSE l) /\ \A i \in 1..Len(s) : s[i] = r[i]
\* a cutoff keeps what is recent enough
CutoffOK == \A q \in Qs, c \in Cs, s \in 1..Sec(now) :
   Set(Result(q, c, s, Big)) = {n \in Set(Result(q, c, 0, Big)) : msgs[n].isec >= s}
\* contracts do not see each other
Isolated == \A q \in Qs : Set(Result(q, 0, 0, Big)) \cap Set(Result(q, 1, 0, Big)) = {}
\* what a crash would leave is bracketed by what is certain and what is possible
Bracket == \A q \in Qs, c \in Cs :
   Set(Must(q, c)) \subseteq Set(Result(q, c, 0, Big)) /\ Set(Result(q, c, 0, Big)) \subseteq Set(May(q, c))
IndexedIsDurable == \A n \in Ids : msgs[n].synced => msgs[n].dput
CountOK == Count <= Cardinality(Live)

---------------------------------------------------------------------------
\* A step never takes an ID back or changes a message other than by the call.
IdsGrow   == [][Len(msgs') >= Len(msgs)]_mvars
DeadStays == [][\A n \in Ids : msgs[n].st = "dead" /\ (msgs[n].ddel \/ last' # "crash") => msgs'[n].st = "dead"]_mvars
\* only a delete, a crash before it is durable or its expiry makes a message disappear
LiveStays == [][\A n \in Ids : msgs[n].st = "live" =>
     \/ msgs'[n].st = "live" /\ msgs'[n].topic = msgs[n].topic /\ msgs'[n].con = msgs[n].con /\ msgs'[n].exp = msgs[n].exp
     \/ last' \in {"del", "commit"} /\ mutable /\ msgs'[n].st = "dead"
     \/ last' = "crash" /\ ~msgs[n].dput]_mvars
NoDeleteIfImmutable == [][~mutable => \A n \in Ids : msgs'[n].st = "dead" => msgs[n].st = "dead"]_mvars
DurableStays == [][\A n \in Ids : msgs[n].dput => msgs'[n].dput]_mvars
SyncInvisible == [][last' \in {"sync", "close", "open"} =>
     \A n \in Ids : (msgs[n].st = "live") = (msgs'[n].st = "live")]_mvars
\* the puts of a batch become visible together, and no earlier
BatchTogether == [][\A n \in 1..Len(msgs') : n > Len(msgs) /\ last' = "commit" => msgs'[n].st = "live" /\ msgs'[n].grp = ngrp']_mvars
BatchAtomic == \A n, m \in Ids : (msgs[n].grp # 0 /\ msgs[n].grp = msgs[m].grp) =>
     (msgs[n].st = "void" <=> msgs[m].st = "void")
ClosedIsIdle == [][~open /\ last' # "open" => msgs' = msgs]_mvars
=============================================================================
