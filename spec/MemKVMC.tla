------------------------------ MODULE MemKVMC ------------------------------
(***************************************************************************)
(* Exhaustive check of MemKV on small bounds.                              *)
(***************************************************************************)
EXTENDS MemKV

CONSTANTS K, MaxTime, MaxVal, MaxBatch

VARIABLES nv, last
mvars == <<now, open, dur, blk, rec, nb, bat, nv, last>>

MInit == dur = 2 /\ Init /\ nv = 0 /\ last = <<"init">>

Same == nv' = nv
MNext ==
  \/ \E d \in {1, 2} : now + d <= MaxTime /\ Advance(d) /\ Same /\ last' = <<"adv">>
  \/ \E k \in K : nv < MaxVal /\ Put(k, nv + 1) /\ nv' = nv + 1 /\ last' = <<"put", k, nv + 1>>
  \/ \E k \in K : now + 1 <= MaxTime /\ nv < MaxVal /\ PutLogging(k, nv + 1, 1) /\ nv' = nv + 1 /\ last' = <<"logput", k, nv + 1>>
  \/ \E k \in K : now + 1 <= MaxTime /\ DeleteLogging(k, 1) /\ Same /\ last' = <<"logdel", k>>
  \/ \E k \in K : Delete(k) /\ Same /\ last' = <<"del", k>>
  \/ \E b \in Blocks : Free(b) /\ Same /\ last' = <<"free", b>>
  \/ \E s \in Slots :
       \/ nb < MaxBatch /\ Begin(s) /\ Same /\ last' = <<"begin">>
       \/ \E k \in K : nv < MaxVal /\ BPut(s, k, nv + 1) /\ nv' = nv + 1 /\ last' = <<"bput", s>>
       \/ \E k \in K : BDelete(s, k) /\ Same /\ last' = <<"bput", s>>
       \/ nb < MaxBatch /\ BWrite(s) /\ Same /\ last' = <<"bwrite", s>>
       \/ BCommit(s) /\ Same /\ last' = <<"bcommit", s>>
       \/ BAbort(s) /\ Same /\ last' = <<"babort", s>>
  \/ Close /\ Same /\ last' = <<"close">>
  \/ (\E p \in [DOMAIN blk -> 1..3] : (\A b \in DOMAIN blk : p[b] <= Len(blk[b].vers)) /\ Crash(p)) /\ Same /\ last' = <<"crash">>
  \/ Open /\ Same /\ last' = <<"open">>
  \/ OpenReset /\ Same /\ last' = <<"reset">>

MSpec == MInit /\ [][MNext]_mvars
Bound == \A b \in DOMAIN blk : Len(blk[b].vers) <= 3

---------------------------------------------------------------------------
TypeOK == /\ now \in Nat /\ open \in BOOLEAN /\ rec \in Nat
          /\ \A b \in DOMAIN blk : Len(blk[b].vers) >= 1
\* the value of a key is of the most recent block that has it
MostRecent == \A k \in K : Get(k) # None <=> k \in Keys
MostRecent2 == \A k \in K : \A b \in With(k) : (\A c \in With(k) : c <= b) => Get(k) = Cont(b)[k]
\* entries of a batch that is not written are not visible
Hidden == \A s \in Slots : bat[s].st = "open" => bat[s].id \notin DOMAIN blk
\* a new block does not take the ID of a block that is there
Fresh == open => \A s \in Slots : bat[s].st = "open" => bat[s].id > Cur \/ bat[s].id < Start(now) \/ bat[s].id < Cur
\* what is iterated is there, and is not changed by a later Put
Iter == \A i \in 1..Len(Iterated) : Iterated[i] \in Blocks /\ Iterated[i] # Cur

View == [b \in Blocks |-> Cont(b)]
PutSeen   == [][last'[1] = "put" => LET v == blk'[Cur].vers IN v[Len(v)][last'[2]] = last'[3] /\ (\A b \in DOMAIN blk \ {Cur} : blk'[b] = blk[b])]_mvars
DelSeen   == [][last'[1] = "del" => last'[2] \notin Keys' /\ Keys \ {last'[2]} \subseteq Keys']_mvars
FreeSeen  == [][last'[1] = "free" => \A b \in Blocks : IF b = last'[2] THEN b \notin DOMAIN blk' ELSE blk'[b] = blk[b]]_mvars
LogSeen   == [][/\ last'[1] = "logput" => Settled' /\ blk'[Cur].vers[1][last'[2]] = last'[3]
                /\ last'[1] = "logdel" => Settled' /\ last'[2] \notin Keys']_mvars
\* logging, closing and opening again change nothing that is seen
Invisible == [][last'[1] \in {"adv", "close", "open", "begin", "bput"} => View' = View]_mvars
AbortSeen == [][last'[1] = "babort" => Blocks' = Blocks \ bat[last'[2]].group]_mvars
WriteSeen == [][last'[1] \in {"bwrite", "bcommit"} => LET s == last'[2] IN
                 View' = IF DOMAIN bat[s].cont = {} THEN View
                         ELSE [b \in Blocks \cup {bat[s].id} |-> IF b = bat[s].id THEN bat[s].cont ELSE Cont(b)]]_mvars
\* what was logged survives a crash
Survives  == [][last'[1] = "crash" /\ Settled => View' = View]_mvars
\* a block never brings back anything but what it had since it was logged
NoInvention == [][last'[1] = "crash" => \A b \in Blocks' : b \in DOMAIN blk /\ \E i \in 1..Len(blk[b].vers) : Cont(b)' = blk[b].vers[i]]_mvars
\* recovered blocks are not put into
RecoveredSealed == [][last'[1] = "put" => Cur > rec]_mvars
=============================================================================
