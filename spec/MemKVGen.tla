------------------------------ MODULE MemKVGen ------------------------------
(***************************************************************************)
(* Generator of behaviours of MemKV for replay into the real memdb.        *)
(***************************************************************************)
EXTENDS MemKV, Json

CONSTANTS ProfileName, Steps

VARIABLES hist, nv, k, prof
gvars == <<now, open, dur, blk, rec, nb, bat, hist, nv, k, prof>>

Rep(x, n) == [i \in 1..n |-> x]
W(s) == FoldLeft(LAMBDA acc, e : acc \o Rep(e[1], e[2]), <<>>, s)

Base == [keys |-> 0..5, sizes |-> {"e", "s", "m"}, advs |-> {1, 1, 2, 3, 5, 11}, bulk |-> {3, 17}, durs |-> {2, 5, 10}, mmax |-> 6, mkeys |-> 0..5, log |-> {15, 5}, crash |-> FALSE,
         weights |-> <<<<"put", 10>>, <<"del", 4>>, <<"adv", 7>>, <<"logput", 3>>, <<"logdel", 2>>, <<"free", 2>>, <<"reopen", 1>>, <<"bulk", 1>>, <<"begin", 2>>, <<"bput", 6>>, <<"bdel", 1>>,
                       <<"bwrite", 1>>, <<"bcommit", 2>>, <<"babort", 1>>, <<"bad", 1>>, <<"managed", 1>>>>]
Profile ==
  CASE ProfileName = "kv" -> Base
    [] ProfileName = "kvbatch" -> [Base EXCEPT !.weights = <<<<"put", 5>>, <<"del", 3>>, <<"adv", 4>>, <<"free", 1>>, <<"reopen", 1>>, <<"begin", 4>>, <<"bput", 12>>, <<"bdel", 3>>,
                       <<"bwrite", 3>>, <<"bcommit", 3>>, <<"babort", 2>>, <<"managed", 3>>, <<"crash", 1>>>>]
    [] ProfileName = "kvdur" -> [Base EXCEPT !.sizes = {"e", "s", "m", "l"}, !.weights = <<<<"put", 10>>, <<"del", 5>>, <<"adv", 6>>, <<"logput", 4>>, <<"logdel", 2>>, <<"free", 1>>, <<"reopen", 6>>, <<"crash", 4>>, <<"bulk", 1>>,
                       <<"begin", 2>>, <<"bput", 5>>, <<"bwrite", 1>>, <<"bcommit", 2>>, <<"managed", 1>>, <<"reset", 1>>>>]
    [] ProfileName = "kvcrash" -> [Base EXCEPT !.crash = TRUE, !.keys = 0..3, !.bulk = {3}, !.advs = {1, 1, 2, 11}, !.weights = <<<<"put", 10>>, <<"del", 5>>, <<"adv", 8>>, <<"logput", 4>>, <<"logdel", 2>>, <<"free", 1>>, <<"reopen", 2>>, <<"crash", 2>>,
                       <<"begin", 3>>, <<"bput", 8>>, <<"bdel", 1>>, <<"bwrite", 2>>, <<"bcommit", 2>>, <<"babort", 2>>, <<"managed", 2>>>>]
    [] ProfileName = "kvbig" -> [Base EXCEPT !.sizes = {"s", "m", "l", "x", "h"}, !.bulk = {60, 300}, !.mmax = 60, !.mkeys = 0..199, !.weights = <<<<"put", 4>>, <<"bulk", 4>>, <<"bulkdel", 2>>, <<"del", 1>>, <<"adv", 5>>, <<"free", 2>>, <<"reopen", 1>>, <<"crash", 1>>,
                       <<"managed", 2>>>>]

---------------------------------------------------------------------------
Pairs(f) == LET d == SetToSortSeq(DOMAIN f, <) IN [i \in 1..Len(d) |-> <<d[i], f[d[i]]>>]
Obs == [b   |-> LET d == SetToSortSeq(Blocks, <) IN [i \in 1..Len(d) |-> [id |-> d[i], e |-> Pairs(Cont(d[i]))]],
        it  |-> Iterated, all |-> AllIds, cur |-> IF open THEN Cur ELSE 0,
        cr  |-> IF ~prof.crash THEN <<>>
                ELSE LET d == SetToSortSeq(DOMAIN blk, <) IN
                     [i \in 1..Len(d) |-> [id |-> d[i], v |-> [j \in 1..Len(blk[d[i]].vers) |-> Pairs(blk[d[i]].vers[j])]]]]
Rec(r) == hist' = Append(hist, r @@ [at |-> now', o |-> Obs', open |-> open'])
Held == UNCHANGED nv

OpenSlots == {s \in Slots : bat[s].st = "open"}
FreeSlots == Slots \ OpenSlots
Enabled(w) ==
  CASE ~open -> w \in {"adv", "reopen", "reset"}
    [] w \in {"put", "bulk"} -> TRUE
    [] w = "bulkdel" -> Cardinality(Keys) > 3
    [] w \in {"free"} -> Blocks # {}
    [] w \in {"begin", "managed"} -> FreeSlots # {}
    [] w \in {"bput", "bwrite", "bcommit", "babort"} -> OpenSlots # {}
    [] w = "bdel" -> \E s \in OpenSlots : DOMAIN bat[s].cont # {}
    [] w = "crash" -> Settled
    [] w \in {"logput", "logdel"} -> Logging
    [] w = "reset" -> FALSE
    [] OTHER -> TRUE
ClosedMenu == IF ProfileName = "kvdur" THEN <<"reopen", "reopen", "reopen", "adv", "adv", "reset">> ELSE <<"reopen", "reopen", "adv">>
Menu == IF open THEN SelectSeq(prof.weights, Enabled) ELSE ClosedMenu

Size == RandomElement(prof.sizes)
DoPut == \E x \in {RandomElement(prof.keys)}, s \in {Size} :
           IF CanPut THEN Put(x, nv + 1) /\ nv' = nv + 1 /\ Rec([op |-> "put", k |-> x, n |-> nv + 1, size |-> s, id |-> Cur])
           ELSE UNCHANGED kvars /\ Held /\ Rec([op |-> "noput", k |-> x])
DoBulk == \E m \in {RandomElement(prof.bulk)}, b \in {RandomElement({0, 3, 100})}, s \in {RandomElement(prof.sizes \ {"l", "x", "h"})} :
           IF CanPut THEN /\ PutAll([x \in b..(b + m - 1) |-> nv + x - b + 1]) /\ nv' = nv + m
                          /\ Rec([op |-> "bulk", k |-> b, m |-> m, n |-> nv + 1, size |-> s, id |-> Cur])
           ELSE UNCHANGED kvars /\ Held /\ Rec([op |-> "noput", k |-> b])
DoDel == \E x \in {RandomElement(IF Keys # {} /\ RandomElement(1..6) > 1 THEN Keys ELSE prof.keys)} :
           IF x \in Keys THEN Delete(x) /\ Held /\ Rec([op |-> "del", k |-> x])
           ELSE UNCHANGED kvars /\ Held /\ Rec([op |-> "nodel", k |-> x])
DoBulkDel == \E m \in {RandomElement(1..5)} : \E S \in {{x \in Keys : x % m # 1}} :
           IF S # {} THEN DeleteAll(S) /\ Held /\ Rec([op |-> "bulkdel", ks |-> SetToSeq(S)])
           ELSE UNCHANGED kvars /\ Held /\ Rec([op |-> "bad", var |-> 0])
DoFree == \E b \in {RandomElement(Blocks)} : Free(b) /\ Held /\ Rec([op |-> "free", id |-> b])
DoAdv == \E d \in {RandomElement(prof.advs)} : Advance(d) /\ Held /\ Rec([op |-> "adv", d |-> d])
DoLogPut == \E x \in {RandomElement(prof.keys)}, s \in {Size}, d \in {RandomElement(prof.advs)} :
           /\ PutLogging(x, nv + 1, d) /\ nv' = nv + 1
           /\ Rec([op |-> "logput", d |-> d, k |-> x, n |-> nv + 1, size |-> s, id |-> Cur])
DoLogDel == \E x \in {RandomElement(IF Keys # {} THEN Keys ELSE prof.keys)}, d \in {RandomElement(prof.advs)} :
           IF x \in Keys THEN DeleteLogging(x, d) /\ Held /\ Rec([op |-> "logdel", d |-> d, k |-> x])
           ELSE Advance(d) /\ Held /\ Rec([op |-> "adv", d |-> d])
DoReopen == IF open THEN Close /\ Held /\ Rec([op |-> "close"]) ELSE Open /\ Held /\ Rec([op |-> "open"])
DoReset == OpenReset /\ Held /\ Rec([op |-> "reset"])
DoCrash == Crash(Newest) /\ Held /\ Rec([op |-> "crash"])
DoBad == \E v \in {RandomElement(0..5)} : UNCHANGED kvars /\ Held /\ Rec([op |-> "bad", var |-> v])
DoBegin == \E s \in {RandomElement(FreeSlots)} : Begin(s) /\ Held /\ Rec([op |-> "begin", slot |-> s, id |-> NewId(nb + 1)])
DoBPut == \E s \in {RandomElement(OpenSlots)}, x \in {RandomElement(prof.keys)}, z \in {Size} :
           BPut(s, x, nv + 1) /\ nv' = nv + 1 /\ Rec([op |-> "bput", slot |-> s, k |-> x, n |-> nv + 1, size |-> z])
DoBDel == \E s \in {RandomElement({s \in OpenSlots : DOMAIN bat[s].cont # {}})} : \E x \in {RandomElement(DOMAIN bat[s].cont)} :
           BDelete(s, x) /\ Held /\ Rec([op |-> "bdel", slot |-> s, k |-> x])
DoBWrite == \E s \in {RandomElement(OpenSlots)} : BWrite(s) /\ Held /\ Rec([op |-> "bwrite", slot |-> s, id |-> bat'[s].id, one |-> bat[s].id, n |-> Cardinality(DOMAIN bat[s].cont)])
DoBCommit == \E s \in {RandomElement(OpenSlots)} : BCommit(s) /\ Held /\ Rec([op |-> "bcommit", slot |-> s, one |-> bat[s].id, n |-> Cardinality(DOMAIN bat[s].cont)])
DoBAbort == \E s \in {RandomElement(OpenSlots)} : BAbort(s) /\ Held /\ Rec([op |-> "babort", slot |-> s, ids |-> SetToSeq(bat[s].group)])
\* DB.Batch: all of a batch within one call; it is committed unless the function returns an error
DoManaged == \E m \in {RandomElement(0..prof.mmax)}, c \in {RandomElement({TRUE, TRUE, FALSE})}, z \in {Size} :
             \E ks \in {[i \in 1..m |-> RandomElement(prof.mkeys)]} :
             \E f \in {[x \in {ks[i] : i \in 1..m} |-> nv + Max({i \in 1..m : ks[i] = x})]} :
             \E id \in {NewId(nb + 1)} :
           /\ blk' = IF c /\ m > 0 THEN [b \in DOMAIN blk \cup {id} |-> IF b = id THEN NewBlock(f, TRUE, TRUE) ELSE blk[b]] ELSE blk
           /\ nb' = nb + 1 /\ nv' = nv + m
           /\ UNCHANGED <<now, open, dur, rec, bat>>
           /\ Rec([op |-> "managed", ks |-> ks, n |-> nv + 1, commit |-> c, id |-> id, size |-> z])

\* initial states are drawn once, so there are several
GInit == /\ nv = 0 /\ k = 0
         /\ prof = [Profile EXCEPT !.weights = W(@)]
         /\ \E z \in 1..40 : \E d \in {RandomElement(prof.durs)}, l \in {RandomElement(prof.log)}, v \in {RandomElement(0..999)} :
              dur = d /\ Init /\ hist = <<[op |-> "cfg", dur |-> d, log |-> l, v |-> v, crash |-> prof.crash, profile |-> ProfileName]>>

Do(w) == CASE w = "put" -> DoPut [] w = "bulk" -> DoBulk [] w = "del" -> DoDel [] w = "bulkdel" -> DoBulkDel [] w = "free" -> DoFree [] w = "adv" -> DoAdv
           [] w = "logput" -> DoLogPut [] w = "logdel" -> DoLogDel
           [] w = "reopen" -> DoReopen [] w = "reset" -> DoReset [] w = "crash" -> DoCrash [] w = "bad" -> DoBad
           [] w = "begin" -> DoBegin [] w = "bput" -> DoBPut [] w = "bdel" -> DoBDel [] w = "bwrite" -> DoBWrite
           [] w = "bcommit" -> DoBCommit [] w = "babort" -> DoBAbort [] w = "managed" -> DoManaged

GNext ==
  /\ UNCHANGED prof
  /\ \/ /\ k < Steps /\ k' = k + 1
        /\ \E m \in {Menu} : \E i \in {RandomElement(1..Len(m))} : Do(m[i])
     \/ /\ k = Steps /\ k' = k + 1
        /\ PrintT(ToJson(hist))
        /\ UNCHANGED <<kvars, hist, nv>>
GSpec == GInit /\ [][GNext]_gvars
TypeOK == /\ now \in Nat /\ \A b \in DOMAIN blk : Len(blk[b].vers) >= 1
          /\ \A x \in Keys : Get(x) # None
=============================================================================
