----------------------------- MODULE UnitStore -----------------------------
(***************************************************************************)
(* The message store of unitdb, as a user of its public API sees it.       *)
(*                                                                         *)
(* msgs[n] is the message that owns the n-th ID the store has handed out   *)
(* (IDs are handed out in increasing order, by NewID or by Put).  Time is  *)
(* in tenths of a second; Sec(now) is what expiry and cutoffs look at.     *)
(*                                                                         *)
(* A message is "idle" (only its ID is allocated), "live" or "dead".       *)
(*   dput / ddel : the put / the delete has reached the disk (log or       *)
(*                 index), so that a crash cannot undo it                  *)
(*   synced      : it has moved from the log to the index                  *)
(*   psec        : the second of the memory block it was put in            *)
(*   grp         : 0, or the number of the batch that committed it         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Topics

VARIABLES now, msgs, open, mutable, ngrp

svars == <<now, msgs, open, mutable, ngrp>>

Sec(t) == t \div 10
Ids    == 1..Len(msgs)

Idle == [topic |-> <<>>, con |-> 0, st |-> "idle", exp |-> 0, isec |-> 0, psec |-> 0,
         dput |-> FALSE, ddel |-> FALSE, synced |-> FALSE, grp |-> 0]

NewMsg(topic, con, ttl) ==
  [Idle EXCEPT !.topic = topic, !.con = con, !.st = "live",
               !.exp = IF ttl = 0 THEN 0 ELSE Sec(now) + ttl,
               !.isec = Sec(now), !.psec = Sec(now)]

---------------------------------------------------------------------------
(* What a query returns: every live, unexpired message of the contract      *)
(* stored under a pattern that covers the topic and not older than the      *)
(* cutoff second (0: no cutoff), most recent first, each once, at most      *)
(* limit.                                                                   *)
Expired(m) == m.exp # 0 /\ m.exp <= Sec(now)
Selects(m, t, c, cutoff) ==
   m.con = c /\ ~Expired(m) /\ (cutoff = 0 \/ m.isec >= cutoff) /\ Covers(m.topic, t)

RECURSIVE Down(_)
Down(n) == IF n = 0 THEN <<>> ELSE <<n>> \o Down(n - 1)
Desc(P(_)) == SelectSeq([i \in Ids |-> Len(msgs) + 1 - i], P)

Result(t, c, cutoff, limit) ==
  LET P(n) == msgs[n].st = "live" /\ Selects(msgs[n], t, c, cutoff)
      r    == Desc(P)
  IN  IF Len(r) > limit THEN SubSeq(r, 1, limit) ELSE r

(* What a process that opens the store after a crash right now must find,   *)
(* and may find.                                                            *)
MustSurvive(m) == m.st = "live" /\ m.dput
MaySurvive(m)  == m.st = "live" \/ (m.st = "dead" /\ ~m.ddel)
Must(t, c) == LET P(n) == MustSurvive(msgs[n]) /\ Selects(msgs[n], t, c, 0) IN Desc(P)
May(t, c)  == LET P(n) == MaySurvive(msgs[n]) /\ Selects(msgs[n], t, c, 0) IN Desc(P)

Live    == {n \in Ids : msgs[n].st = "live"}
Count   == Cardinality({n \in Ids : msgs[n].st = "live" /\ msgs[n].synced})
Settled == \A n \in Ids : /\ msgs[n].st = "live" => msgs[n].dput
                          /\ msgs[n].st = "dead" => msgs[n].ddel

---------------------------------------------------------------------------
Init == /\ now = 0 /\ msgs = <<>> /\ open = TRUE /\ ngrp = 0

(* The log of the store is written every few milliseconds, so that a tenth  *)
(* of a second after it is done a put or a delete is on disk.               *)
Advance(d) ==
  /\ d > 0
  /\ now' = now + d
  /\ msgs' = IF ~open THEN msgs
             ELSE [n \in Ids |-> CASE msgs[n].st = "live" -> [msgs[n] EXCEPT !.dput = TRUE]
                                   [] msgs[n].st = "dead" -> [msgs[n] EXCEPT !.ddel = TRUE]
                                   [] OTHER -> msgs[n]]
  /\ UNCHANGED <<open, mutable, ngrp>>

NewID ==
  /\ open
  /\ msgs' = Append(msgs, [Idle EXCEPT !.isec = Sec(now)])
  /\ UNCHANGED <<now, open, mutable, ngrp>>

Put(topic, con, ttl) ==
  /\ open
  /\ msgs' = Append(msgs, NewMsg(topic, con, ttl))
  /\ UNCHANGED <<now, open, mutable, ngrp>>

PutWithID(n, topic, con, ttl) ==
  /\ open /\ n \in Ids /\ msgs[n].st = "idle"
  /\ msgs' = [msgs EXCEPT ![n] = [NewMsg(topic, con, ttl) EXCEPT !.isec = msgs[n].isec]]
  /\ UNCHANGED <<now, open, mutable, ngrp>>

Killed(m) == [m EXCEPT !.st = "dead", !.ddel = m.synced]

\* An entry of the index is deleted there and then, one of the log with the next log.
Delete(n) ==
  /\ open /\ mutable /\ n \in Live
  /\ msgs' = [msgs EXCEPT ![n] = Killed(msgs[n])]
  /\ UNCHANGED <<now, open, mutable, ngrp>>

(* A batch is a sequence of [op |-> "put"|"del", ...].  Its puts take effect *)
(* and reach the disk together; a batch that is rolled back only uses IDs.   *)
RECURSIVE Apply(_, _, _)
Apply(ms, ops, g) ==
  IF ops = <<>> THEN ms
  ELSE LET o == Head(ops)
           r == CASE o.op = "put" ->
                       Append(ms, [NewMsg(o.topic, o.con, o.ttl) EXCEPT !.dput = TRUE, !.grp = g])
                  [] o.op = "del" ->
                       [ms EXCEPT ![o.n] = Killed(@)]
                  [] OTHER -> ms
       IN  Apply(r, Tail(ops), g)

Commit(ops) ==
  /\ open
  /\ ngrp' = ngrp + 1
  /\ msgs' = Apply(msgs, ops, ngrp + 1)
  /\ UNCHANGED <<now, open, mutable>>

Rollback(ops) ==
  /\ open
  /\ msgs' = msgs \o [i \in 1..Cardinality({j \in 1..Len(ops) : ops[j].op = "put"}) |->
                         [Idle EXCEPT !.st = "void", !.isec = Sec(now)]]
  /\ UNCHANGED <<now, open, mutable, ngrp>>

(* Sync moves to the index what was put in an earlier second. *)
Sync ==
  /\ open
  /\ msgs' = [n \in Ids |->
                IF msgs[n].st = "live" /\ msgs[n].psec < Sec(now)
                THEN [msgs[n] EXCEPT !.synced = TRUE, !.dput = TRUE] ELSE msgs[n]]
  /\ UNCHANGED <<now, open, mutable, ngrp>>

Closed(ms) == [n \in DOMAIN ms |-> CASE ms[n].st = "live" -> [ms[n] EXCEPT !.dput = TRUE]
                                     [] ms[n].st = "dead" -> [ms[n] EXCEPT !.ddel = TRUE]
                                     [] OTHER -> ms[n]]
Close ==
  /\ open
  /\ open' = FALSE
  /\ msgs' = Closed(msgs)
  /\ UNCHANGED <<now, mutable, ngrp>>

(* The store is closed while a batch of one message is put together; the    *)
(* batch is not committed then.                                             *)
CloseInBatch ==
  /\ open
  /\ open' = FALSE
  /\ msgs' = Append(Closed(msgs), [Idle EXCEPT !.st = "void", !.isec = Sec(now)])
  /\ UNCHANGED <<now, mutable, ngrp>>

(* Open recovers the log into the index.  An ID that was never used before  *)
(* the process went away is forgotten (it is not used after this).          *)
Recovered(ms) == [n \in DOMAIN ms |-> CASE ms[n].st = "live" -> [ms[n] EXCEPT !.synced = TRUE]
                                        [] ms[n].st = "idle" -> [ms[n] EXCEPT !.st = "void"]
                                        [] OTHER -> ms[n]]
Open(mu) ==
  /\ ~open
  /\ open' = TRUE
  /\ mutable' = mu
  /\ msgs' = Recovered(msgs)
  /\ UNCHANGED <<now, ngrp>>

(* An attempt to open the store with bad options, or while it is open, is   *)
(* refused, and changes nothing.                                            *)
Refused == UNCHANGED <<now, msgs, open, mutable, ngrp>>

(* The process dies and another one opens the store.  Only what had reached *)
(* the disk is certain; the rest may or may not have.  Puts of one batch    *)
(* survive together.                                                        *)
Crash(survives, undeleted) ==
  /\ open
  /\ survives \subseteq {n \in Ids : msgs[n].st = "live" /\ ~msgs[n].dput}
  /\ undeleted \subseteq {n \in Ids : msgs[n].st = "dead" /\ ~msgs[n].ddel}
  /\ msgs' = Recovered([n \in Ids |->
        CASE msgs[n].st = "live" /\ ~msgs[n].dput /\ n \notin survives -> [msgs[n] EXCEPT !.st = "void"]
          [] msgs[n].st = "live" -> [msgs[n] EXCEPT !.dput = TRUE]
          [] n \in undeleted -> [msgs[n] EXCEPT !.st = "live", !.dput = TRUE]
          [] msgs[n].st = "dead" -> [msgs[n] EXCEPT !.ddel = TRUE]
          [] OTHER -> msgs[n]])
  /\ UNCHANGED <<now, open, mutable, ngrp>>
=============================================================================
