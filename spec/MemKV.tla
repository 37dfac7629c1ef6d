------------------------------- MODULE MemKV -------------------------------
(***************************************************************************)
(* The key-value store memdb: entries live in time blocks that are written *)
(* to a write-ahead log.  A time block starts every BlockDur tenths of a   *)
(* second; every batch has blocks of its own, one for each of its writes.  *)
(*                                                                         *)
(* A block keeps the contents it went through since it was last logged, as *)
(* a crash may bring back any one of them.                                 *)
(*                                                                         *)
(* An ID of a block is a natural number; IDs are in the order of time.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

CONSTANT Slots          \* batches that may be open at the same time

VARIABLES now,          \* tenths of a second
          open,
          dur,          \* duration of a time block
          blk,          \* time ID -> block
          rec,          \* time ID of the most recent recovered block
          nb,           \* number of batch blocks begun
          bat           \* slot -> batch

kvars == <<now, open, dur, blk, rec, nb, bat>>

Unit  == 10000
Empty == [k \in {} |-> 0]
NoBatch == [st |-> "none", id |-> 0, cont |-> Empty, group |-> {}]

Start(t) == (t \div dur + 1) * dur * Unit
CurAt(t) == IF Start(t) > rec THEN Start(t) ELSE rec + 1
Cur      == CurAt(now)

NewBlock(f, t, r) == [vers |-> <<f>>, touched |-> t, rel |-> r]
Cont(b)  == blk[b].vers[Len(blk[b].vers)]
Blocks   == {b \in DOMAIN blk : DOMAIN Cont(b) # {}}
With(k)  == {b \in DOMAIN blk : k \in DOMAIN Cont(b)}
Without(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Plus(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Settled  == \A b \in DOMAIN blk : Len(blk[b].vers) = 1

Ver(b, f) == [blk[b] EXCEPT !.vers = Append(@, f), !.touched = TRUE]
Drop(S)   == [b \in DOMAIN blk \ S |-> blk[b]]

---------------------------------------------------------------------------
(* What is observed *)
None     == 0
Lookup(b, k) == IF b \in DOMAIN blk /\ k \in DOMAIN Cont(b) THEN Cont(b)[k] ELSE None
Get(k)   == IF With(k) = {} THEN None ELSE Cont(Max(With(k)))[k]
Keys     == UNION {DOMAIN Cont(b) : b \in DOMAIN blk}
Iterated == SetToSortSeq({b \in Blocks : blk[b].rel /\ b < Cur}, <)
AllIds   == SetToSortSeq({b \in Blocks : blk[b].rel /\ (open => b # Cur)}, <)

---------------------------------------------------------------------------
Init == /\ now = 0 /\ open = TRUE /\ rec = 0 /\ nb = 0
        /\ blk = (Start(0) :> NewBlock(Empty, FALSE, FALSE))
        /\ bat = [s \in Slots |-> NoBatch]

\* Every block is logged within a tenth of a second, and a block of its own is begun for the time.
Passed(B, d) ==
  LET c == CurAt(now + d) IN
  [b \in DOMAIN B \cup {c} |->
     IF b \notin DOMAIN B THEN NewBlock(Empty, FALSE, FALSE)
     ELSE [B[b] EXCEPT !.vers = <<Last(B[b].vers)>>, !.rel = @ \/ (b = Cur /\ b # c)]]
Advance(d) ==
  /\ d > 0
  /\ now' = now + d
  /\ blk' = IF ~open THEN blk ELSE Passed(blk, d)
  /\ UNCHANGED <<open, dur, rec, nb, bat>>

\* Put is refused after the current block was freed, until the next one begins.
CanPut == open /\ Cur \in DOMAIN blk
PutIn(k, v) == [blk EXCEPT ![Cur] = Ver(Cur, Plus(Cont(Cur), k, v))]
Put(k, v) ==
  /\ CanPut
  /\ blk' = PutIn(k, v)
  /\ UNCHANGED <<now, open, dur, rec, nb, bat>>

\* Several entries are put one after another.
PutAll(f) ==
  /\ CanPut
  /\ blk' = [blk EXCEPT ![Cur] = Ver(Cur, [x \in DOMAIN Cont(Cur) \cup DOMAIN f |-> IF x \in DOMAIN f THEN f[x] ELSE Cont(Cur)[x]])]
  /\ UNCHANGED <<now, open, dur, rec, nb, bat>>

\* Entries are deleted from every block they are in.  A block that has no entries left is released, unless it is the current one.
Removed(b, K) == Without(Cont(b), K)
DeleteIn(K) == LET hit == {b \in DOMAIN blk : DOMAIN Cont(b) \cap K # {}}
                   gone == {b \in hit : b # Cur /\ DOMAIN Removed(b, K) = {}}
               IN [b \in DOMAIN blk \ gone |-> IF b \in hit THEN Ver(b, Removed(b, K)) ELSE blk[b]]
DeleteAll(K) ==
  /\ open /\ K # {} /\ K \subseteq Keys
  /\ blk' = DeleteIn(K)
  /\ UNCHANGED <<now, open, dur, rec, nb, bat>>
Delete(k) == DeleteAll({k})

\* An entry is put, or deleted, while the current block is being logged; it is logged soon after.
Logging == open /\ Cur \in DOMAIN blk /\ Len(blk[Cur].vers) > 1
PutLogging(k, v, d) ==
  /\ Logging /\ d > 0
  /\ now' = now + d
  /\ blk' = Passed(PutIn(k, v), d)
  /\ UNCHANGED <<open, dur, rec, nb, bat>>
DeleteLogging(k, d) ==
  /\ Logging /\ d > 0 /\ k \in Keys
  /\ now' = now + d
  /\ blk' = Passed(DeleteIn({k}), d)
  /\ UNCHANGED <<open, dur, rec, nb, bat>>

Free(b) ==
  /\ open /\ b \in DOMAIN blk
  /\ blk' = Drop({b})
  /\ UNCHANGED <<now, open, dur, rec, nb, bat>>

---------------------------------------------------------------------------
(* Batches *)
NewId(n)   == (now + dur) * Unit + 10 * n
Begin(s) ==
  /\ open /\ bat[s].st = "none"
  /\ nb' = nb + 1
  /\ bat' = [bat EXCEPT ![s] = [st |-> "open", id |-> NewId(nb + 1), cont |-> Empty, group |-> {}]]
  /\ UNCHANGED <<now, open, dur, blk, rec>>
BPut(s, k, v) ==
  /\ open /\ bat[s].st = "open"
  /\ bat' = [bat EXCEPT ![s].cont = Plus(@, k, v)]
  /\ UNCHANGED <<now, open, dur, blk, rec, nb>>
BDelete(s, k) ==
  /\ open /\ bat[s].st = "open" /\ k \in DOMAIN bat[s].cont
  /\ bat' = [bat EXCEPT ![s].cont = Without(@, {k})]
  /\ UNCHANGED <<now, open, dur, blk, rec, nb>>
\* The entries of a batch are visible and durable all at once.
Written(s) == IF DOMAIN bat[s].cont = {} THEN blk
              ELSE [b \in DOMAIN blk \cup {bat[s].id} |->
                      IF b = bat[s].id THEN NewBlock(bat[s].cont, TRUE, FALSE) ELSE blk[b]]
BWrite(s) ==
  /\ open /\ bat[s].st = "open"
  /\ blk' = Written(s)
  /\ IF DOMAIN bat[s].cont = {} THEN UNCHANGED <<nb, bat>>
     ELSE /\ nb' = nb + 1
          /\ bat' = [bat EXCEPT ![s] = [st |-> "open", id |-> NewId(nb + 1), cont |-> Empty, group |-> @.group \cup {@.id}]]
  /\ UNCHANGED <<now, open, dur, rec>>
BCommit(s) ==
  /\ open /\ bat[s].st = "open"
  /\ LET w == Written(s) G == bat[s].group \cup {bat[s].id} IN
       blk' = [b \in DOMAIN w |-> IF b \in G THEN [w[b] EXCEPT !.rel = TRUE] ELSE w[b]]
  /\ bat' = [bat EXCEPT ![s] = NoBatch]
  /\ UNCHANGED <<now, open, dur, rec, nb>>
BAbort(s) ==
  /\ open /\ bat[s].st = "open"
  /\ blk' = Drop(bat[s].group)
  /\ bat' = [bat EXCEPT ![s] = NoBatch]
  /\ UNCHANGED <<now, open, dur, rec, nb>>

---------------------------------------------------------------------------
(* Close logs every block.  A crash leaves of every block what it had at some time since it was logged. *)
OnDisk(pick) ==
  LET disk == {b \in DOMAIN blk : blk[b].touched}
      live == {b \in disk : DOMAIN blk[b].vers[pick[b]] # {}}
  IN  /\ blk' = [b \in live |-> NewBlock(blk[b].vers[pick[b]], TRUE, TRUE)]
      /\ rec' = IF disk = {} THEN 0 ELSE Max(disk)
Newest == [b \in DOMAIN blk |-> Len(blk[b].vers)]
Down == open' = FALSE /\ bat' = [s \in Slots |-> NoBatch] /\ UNCHANGED <<now, dur, nb>>
Close == open /\ OnDisk(Newest) /\ Down
Crash(pick) == open /\ OnDisk(pick) /\ Down

Open ==
  /\ ~open /\ open' = TRUE
  /\ blk' = [b \in DOMAIN blk \cup {Cur} |-> IF b \in DOMAIN blk THEN blk[b] ELSE NewBlock(Empty, FALSE, FALSE)]
  /\ UNCHANGED <<now, dur, rec, nb, bat>>

\* The log is reset when the store is opened.
OpenReset ==
  /\ ~open /\ open' = TRUE
  /\ rec' = 0
  /\ blk' = (Start(now) :> NewBlock(Empty, FALSE, FALSE))
  /\ UNCHANGED <<now, dur, nb, bat>>
=============================================================================
