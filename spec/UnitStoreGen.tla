---------------------------- MODULE UnitStoreGen ----------------------------
(***************************************************************************)
(* Generator of behaviours of UnitStore for replay into the real store.    *)
(* Every step picks one action at random (TLC -simulate), and records the  *)
(* call, its expected result and what every probe query must return after  *)
(* it.  A finished behaviour is printed as one line of JSON.               *)
(*                                                                         *)
(* ProfileName selects the vocabulary of one property.                     *)
(***************************************************************************)
EXTENDS UnitStore, TLC, Json

CONSTANTS ProfileName, Steps

VARIABLES hist, batch, k, prof

gvars == <<now, msgs, open, mutable, ngrp, hist, batch, k, prof>>

Rep(x, n) == [i \in 1..n |-> x]
W(s) == FoldLeft(LAMBDA acc, e : acc \o Rep(e[1], e[2]), <<>>, s)

A == <<"a">>  AB == <<"a", "b">>  AC == <<"a", "c">>  B == <<"b">>  BA == <<"b", "a">>
ABC == <<"a", "b", "c">>  ABD == <<"a", "b", "d">>

\* many levels, and many wildcards in a row
DeepPatterns == PatternsUpTo({"a"}, 6)
                \cup {Rep(Wild, n) \o x : n \in {7, 20, 130}, x \in {<<>>, <<"a">>, <<"a", Wild>>, <<"a", Multi>>}}
                \cup {<<"a">> \o Rep(Wild, n) \o x : n \in {4, 5, 19, 129}, x \in {<<"a">>, <<"b">>, <<"a", Multi>>}}
DeepTopics == [i \in 1..7 |-> Rep("a", i)] \o [i \in 1..6 |-> <<"b">> \o Rep("a", i)] \o [i \in 1..6 |-> Rep("a", i) \o <<"b">>]
              \o <<Rep("a", 8), Rep("a", 20), Rep("a", 21), Rep("a", 22), Rep("a", 130), Rep("a", 131), Rep("a", 132), Rep("a", 20) \o <<"b">>>>

Base == [topics  |-> {AB, AC, ABC, B},
         queries |-> <<AB, AC, ABC, B, A>>,
         cons    |-> {0},
         qcons   |-> <<0>>,
         ttls    |-> {0},
         sizes   |-> {"s", "m"},
         encs    |-> {FALSE},
         limits  |-> {0, 1, 2, 5},
         lasts   |-> {0},
         advs    |-> {1, 2, 3, 7, 10, 12, 20},
         bulk    |-> {},
         cfgs    |-> {[mutable |-> TRUE, enc |-> FALSE, bg |-> FALSE, free |-> 1, dl |-> 0, ml |-> 0, sync |-> 0]},
         crash   |-> FALSE,
         order   |-> TRUE,
         weights |-> <<<<"put", 8>>, <<"newid", 2>>, <<"putid", 3>>, <<"get", 3>>, <<"adv", 6>>, <<"sync", 4>>, <<"reopen", 1>>>>]

Cfg0 == [mutable |-> TRUE, enc |-> FALSE, bg |-> FALSE, free |-> 1, dl |-> 0, ml |-> 0, sync |-> 0]

Profile ==
  CASE ProfileName = "query" -> [Base EXCEPT !.cons = {0, 1}, !.qcons = <<0, 1>>,
                    !.topics = {AB, AC, ABC, B, <<"a", Wild>>, <<"a", Multi>>, <<Wild, "b">>},
                    !.weights = <<<<"put", 10>>, <<"newid", 1>>, <<"putid", 2>>, <<"get", 6>>, <<"adv", 6>>, <<"sync", 5>>,
                                  <<"reopen", 1>>, <<"batch", 3>>, <<"del", 1>>, <<"bulk", 1>>>>,
                    !.bulk = {3, 9, 20},
                    !.cfgs = {Cfg0, [Cfg0 EXCEPT !.sync = 1], [Cfg0 EXCEPT !.free = 0]}]
    [] ProfileName = "big" -> [Base EXCEPT !.bulk = {40, 130, 250, 338, 400}, !.topics = {AB, AC}, !.queries = <<AB, AC>>,
                    !.limits = {0, 1, 30, 100, 337, 600}, !.sizes = {"t", "s"},
                    !.advs = {10, 12},
                    !.weights = <<<<"put", 2>>, <<"bulk", 4>>, <<"get", 4>>, <<"adv", 4>>, <<"sync", 4>>, <<"reopen", 1>>, <<"del", 2>>, <<"newid", 1>>, <<"putid", 1>>>>]
    [] ProfileName = "durable" -> [Base EXCEPT !.topics = {AB, AC, ABC, B, <<"a", Multi>>, <<Wild, "b">>}, !.sizes = {"t", "s", "m", "l"},
                    !.cons = {0, 1}, !.qcons = <<0, 1>>, !.encs = {FALSE, TRUE}, !.ttls = {0, 0, 3000},
                    !.weights = <<<<"refused", 1>>, <<"put", 8>>, <<"newid", 2>>, <<"putid", 3>>, <<"get", 1>>, <<"adv", 4>>, <<"sync", 3>>, <<"reopen", 5>>, <<"batch", 2>>, <<"del", 2>>>>,
                    !.cfgs = {Cfg0, [Cfg0 EXCEPT !.free = 0], [Cfg0 EXCEPT !.sync = 1], [Cfg0 EXCEPT !.enc = TRUE]}]
    [] ProfileName = "crash" -> [Base EXCEPT !.topics = {AB, AC, B, <<"a", Wild>>}, !.queries = <<AB, AC, B>>, !.crash = TRUE,
                    !.sizes = {"t", "s", "m", "l"},
                    !.weights = <<<<"put", 8>>, <<"newid", 2>>, <<"putid", 3>>, <<"adv", 6>>, <<"sync", 5>>, <<"reopen", 1>>, <<"crash", 3>>, <<"batch", 2>>, <<"del", 3>>>>,
                    !.advs = {1, 2, 10, 12}]
    [] ProfileName = "delete" -> [Base EXCEPT !.sizes = {"t", "s", "m", "l"}, !.topics = {AB, AC, <<"a", Wild>>}, !.queries = <<AB, AC>>,
                    !.weights = <<<<"put", 2>>, <<"newid", 4>>, <<"putid", 8>>, <<"get", 3>>, <<"adv", 5>>, <<"sync", 4>>, <<"reopen", 2>>, <<"del", 8>>, <<"batch", 2>>, <<"redel", 1>>>>,
                    !.cfgs = {Cfg0, [Cfg0 EXCEPT !.free = 0], [Cfg0 EXCEPT !.mutable = FALSE]}]
    [] ProfileName = "huge" -> [Base EXCEPT !.topics = {AB, AC}, !.queries = <<AB, AC>>, !.sizes = {"t", "m", "l", "h"}, !.encs = {FALSE, TRUE},
                    !.weights = <<<<"put", 8>>, <<"newid", 1>>, <<"putid", 3>>, <<"get", 1>>, <<"adv", 4>>, <<"sync", 3>>, <<"reopen", 2>>, <<"crash", 1>>, <<"batch", 2>>, <<"del", 3>>>>]
    [] ProfileName = "batch" -> [Base EXCEPT !.cons = {0, 1}, !.qcons = <<0, 1>>, !.encs = {FALSE, TRUE}, !.sizes = {"t", "s", "m"},
                    !.weights = <<<<"put", 3>>, <<"newid", 1>>, <<"putid", 3>>, <<"get", 1>>, <<"adv", 4>>, <<"sync", 4>>, <<"reopen", 1>>, <<"crash", 1>>, <<"batch", 10>>, <<"del", 1>>>>]
    [] ProfileName = "batchcrash" -> [Base EXCEPT !.topics = {AB, AC}, !.queries = <<AB, AC>>, !.crash = TRUE,
                    !.weights = <<<<"put", 3>>, <<"adv", 4>>, <<"sync", 3>>, <<"reopen", 1>>, <<"crash", 1>>, <<"batch", 8>>>>]
    [] ProfileName = "wild" -> [Base EXCEPT !.topics = PatternsUpTo({"a", "b"}, 3), !.queries = SetToSeq(TopicsUpTo({"a", "b"}, 3)),
                    !.advs = {10, 12},
                    !.weights = <<<<"put", 10>>, <<"adv", 2>>, <<"sync", 2>>, <<"reopen", 1>>, <<"batch", 1>>>>]
    [] ProfileName = "wilddeep" -> [Base EXCEPT !.topics = DeepPatterns, !.queries = DeepTopics,
                    !.advs = {10, 12},
                    !.weights = <<<<"put", 14>>, <<"adv", 2>>, <<"sync", 2>>, <<"reopen", 1>>, <<"batch", 1>>>>]
    [] ProfileName = "contract" -> [Base EXCEPT !.lasts = {0, 0, 60}, !.cons = {0, 1, 2, 3, 4, 5}, !.qcons = <<0, 1, 2, 3, 4, 5>>, !.topics = {AB, A, <<Multi>>, <<"a", Wild>>}, !.queries = <<AB, A>>,
                    !.weights = <<<<"put", 10>>, <<"newid", 1>>, <<"putid", 3>>, <<"get", 4>>, <<"adv", 3>>, <<"sync", 3>>, <<"reopen", 1>>, <<"batch", 3>>, <<"del", 2>>, <<"crash", 1>>>>]
    [] ProfileName = "ttl" -> [Base EXCEPT !.ttls = {0, 1, 2, 3, 8, 70}, !.advs = {1, 5, 10, 12, 20, 40, 300, 610},
                    !.limits = {0, 1, 2, 3},
                    !.weights = <<<<"put", 9>>, <<"newid", 1>>, <<"putid", 2>>, <<"get", 4>>, <<"adv", 9>>, <<"sync", 4>>, <<"reopen", 2>>, <<"batch", 3>>, <<"del", 1>>, <<"crash", 1>>>>,
                    !.cfgs = {Cfg0, [Cfg0 EXCEPT !.bg = TRUE], [Cfg0 EXCEPT !.bg = TRUE, !.free = 0], [Cfg0 EXCEPT !.bg = TRUE, !.sync = 1]}]
    [] ProfileName = "reuse" -> [Base EXCEPT !.sizes = {"t", "s", "m", "l"}, !.ttls = {0, 0, 0, 2}, !.topics = {AB, AC}, !.queries = <<AB, AC>>,
                    !.advs = {1, 10, 12, 12, 620}, !.order = FALSE,
                    !.weights = <<<<"put", 6>>, <<"newid", 3>>, <<"putid", 6>>, <<"adv", 6>>, <<"sync", 6>>, <<"reopen", 2>>, <<"crash", 1>>, <<"del", 7>>, <<"batch", 1>>>>,
                    !.cfgs = {Cfg0, [Cfg0 EXCEPT !.bg = TRUE]}]
    [] ProfileName = "reusebig" -> [Base EXCEPT !.sizes = {"t", "s", "m", "l"}, !.topics = {AB, AC}, !.queries = <<AB, AC>>,
                    !.advs = {12}, !.bulk = {20, 60, 120}, !.limits = {0, 10},
                    !.weights = <<<<"bulkid", 6>>, <<"adv", 5>>, <<"sync", 6>>, <<"reopen", 1>>, <<"bulkdel", 4>>, <<"put", 1>>>>]
    [] ProfileName = "reusecrash" -> [Base EXCEPT !.sizes = {"t", "s", "m"}, !.topics = {AB, AC}, !.queries = <<AB, AC>>,
                    !.advs = {12}, !.bulk = {20, 60, 120}, !.limits = {0, 10},
                    !.weights = <<<<"bulkid", 6>>, <<"adv", 6>>, <<"sync", 6>>, <<"reopen", 3>>, <<"crash", 4>>, <<"bulkdel", 4>>, <<"put", 1>>>>]
    \* IDs reserved long before the messages are put: blocks of a topic hold entries out of order
    [] ProfileName = "late" -> [Base EXCEPT !.bulk = {100, 345, 700}, !.topics = {AB}, !.queries = <<AB>>, !.order = FALSE,
                    !.limits = {1, 5, 30, 100, 340}, !.lasts = {0, 0, 0, 1, 3}, !.sizes = {"t", "s"}, !.advs = {10, 12, 20},
                    !.weights = <<<<"put", 1>>, <<"bulk", 4>>, <<"newids", 3>>, <<"putids", 3>>, <<"get", 6>>, <<"adv", 4>>, <<"sync", 5>>, <<"reopen", 1>>>>]
    \* blocks of the index that are full, and deletes of any of their entries
    [] ProfileName = "delbig" -> [Base EXCEPT !.bulk = {30, 120, 200, 255}, !.topics = {AB, AC}, !.queries = <<AB, AC>>, !.sizes = {"t", "s"},
                    !.advs = {10, 12}, !.limits = {0, 10},
                    !.weights = <<<<"bulkid", 4>>, <<"bulkdel", 3>>, <<"del", 3>>, <<"dellast", 3>>, <<"adv", 5>>, <<"sync", 6>>, <<"reopen", 1>>, <<"put", 1>>>>]
    [] ProfileName = "count" -> [Base EXCEPT !.advs = {10, 12}, !.bulk = {5, 30, 260},
                    !.weights = <<<<"refused", 1>>, <<"put", 5>>, <<"newid", 2>>, <<"putid", 5>>, <<"adv", 4>>, <<"sync", 5>>, <<"reopen", 2>>, <<"crash", 2>>, <<"del", 6>>, <<"redel", 2>>, <<"batch", 3>>, <<"bulk", 1>>>>]
    [] ProfileName = "enc" -> [Base EXCEPT !.encs = {FALSE, TRUE}, !.sizes = {"t", "1", "2", "3", "4", "s", "m", "l"}, !.cons = {0, 1}, !.qcons = <<0, 1>>,
                    !.weights = <<<<"put", 9>>, <<"newid", 1>>, <<"putid", 3>>, <<"get", 1>>, <<"adv", 4>>, <<"sync", 3>>, <<"reopen", 3>>, <<"crash", 1>>, <<"batch", 3>>, <<"del", 1>>, <<"badkey", 1>>>>,
                    !.cfgs = {Cfg0, [Cfg0 EXCEPT !.enc = TRUE]}]
    [] ProfileName = "closed" -> [Base EXCEPT !.weights = <<<<"refused", 1>>, <<"put", 5>>, <<"newid", 1>>, <<"putid", 2>>, <<"adv", 4>>, <<"sync", 2>>, <<"reopen", 6>>, <<"batch", 1>>, <<"closedop", 12>>, <<"closein", 2>>, <<"bad", 4>>, <<"del", 1>>>>,
                    !.cfgs = {Cfg0, [Cfg0 EXCEPT !.mutable = FALSE], [Cfg0 EXCEPT !.sync = 1]}]
    [] ProfileName = "opts" -> [Base EXCEPT !.limits = {0, 1, 2, 3, 4, 6, 50}, !.lasts = {0, 0, 1, 2, 4, 30, -1, -2, -3, -5}, !.ttls = {0, 0, 2},
                    !.advs = {2, 5, 10, 12, 20}, !.cons = {0, 1}, !.qcons = <<0, 1>>,
                    !.weights = <<<<"put", 9>>, <<"newid", 1>>, <<"putid", 1>>, <<"get", 12>>, <<"adv", 7>>, <<"sync", 3>>, <<"reopen", 1>>, <<"batch", 1>>, <<"del", 1>>, <<"bulk", 1>>>>,
                    !.bulk = {3, 8},
                    !.cfgs = {Cfg0, [Cfg0 EXCEPT !.dl = 4, !.ml = 10], [Cfg0 EXCEPT !.dl = 3, !.ml = 5]}]
    [] ProfileName = "uidcrash" -> [Base EXCEPT !.crash = TRUE, !.topics = {AB, AC}, !.queries = <<AB, AC>>, !.bulk = {400, 1100}, !.sizes = {"t", "s"},
                    !.weights = <<<<"put", 6>>, <<"newid", 6>>, <<"putid", 4>>, <<"adv", 4>>, <<"sync", 3>>, <<"reopen", 4>>, <<"crash", 3>>, <<"batch", 2>>, <<"bulk", 1>>>>]
    [] ProfileName = "uid" -> [Base EXCEPT !.weights = <<<<"refused", 1>>, <<"put", 8>>, <<"newid", 6>>, <<"putid", 5>>, <<"adv", 4>>, <<"sync", 3>>, <<"reopen", 4>>, <<"crash", 3>>, <<"batch", 3>>, <<"del", 1>>>>]

---------------------------------------------------------------------------
\* The profile with its menu and its probe queries spelled out.
TheProfile ==
  LET P == Profile
  IN  P @@ [menu |-> W(P.weights),
            probes |-> [i \in 1..(Len(P.queries) * Len(P.qcons)) |->
                         [t |-> P.queries[((i - 1) % Len(P.queries)) + 1],
                          c |-> P.qcons[((i - 1) \div Len(P.queries)) + 1]]]]
Probes == prof.probes

\* recorded with every step, in the state AFTER it
Obs == [q  |-> [i \in 1..Len(Probes) |-> Result(Probes[i].t, Probes[i].c, 0, 1000000)],
        lo |-> IF prof.crash THEN [i \in 1..Len(Probes) |-> Must(Probes[i].t, Probes[i].c)] ELSE <<>>,
        hi |-> IF prof.crash THEN [i \in 1..Len(Probes) |-> May(Probes[i].t, Probes[i].c)] ELSE <<>>,
        count |-> Count]

Rec(r) == hist' = Append(hist, r @@ [at |-> now', o |-> Obs', open |-> open'])

IdleIds == {n \in Ids : msgs[n].st = "idle"}
\* in profiles with limits the store order is the ID order
CanPutId == IF prof.order THEN IdleIds # {} /\ msgs[Len(msgs)].st = "idle" ELSE IdleIds # {}
HasIdle  == Ids # {} /\ msgs[Len(msgs)].st = "idle"
WithIds  == Live \cap UNION {ToSet(hist[i].ids) : i \in {j \in 1..Len(hist) : "ids" \in DOMAIN hist[j]}}

\* messages at the end of a block of the index
Ends == {n \in WithIds : \E i \in -1..1 : (n + i) % 255 = 0}

Enabled(w) ==
  CASE ~open -> w \in {"adv", "reopen", "closedop", "refused"}
    [] w \in {"closedop"} -> FALSE
    [] w \in {"put", "bulk", "bulkid", "batch"} -> ~(prof.order /\ HasIdle)
    [] w \in {"newid", "newids"} -> ~(prof.order /\ HasIdle)
    [] w = "putids" -> IdleIds # {}
    [] w = "dellast" -> mutable /\ Ends # {}
    [] w = "putid" -> CanPutId
    [] w \in {"del"} -> mutable /\ WithIds # {}
    [] w = "bulkdel" -> mutable /\ Cardinality(WithIds) > 3
    [] w = "redel" -> mutable /\ \E n \in Ids : msgs[n].st = "dead"
    [] w = "crash" -> Settled
    [] w = "sync" -> TRUE
    [] OTHER -> TRUE

ClosedMenu == IF ProfileName = "closed" THEN <<"reopen", "adv", "closedop", "closedop", "closedop", "closedop", "refused">>
              ELSE <<"reopen", "reopen", "reopen", "reopen", "adv", "adv", "refused">>
Menu == IF open THEN SelectSeq(prof.menu, Enabled) ELSE ClosedMenu

Cutoff(l) == IF l > 0 THEN Sec(now) - l ELSE 0
DL == IF hist[1].cfg.dl = 0 THEN 1000 ELSE hist[1].cfg.dl
ML == IF hist[1].cfg.ml = 0 THEN 100000 ELSE hist[1].cfg.ml
Least(a, b) == IF a < b THEN a ELSE b
\* limit that applies to a query: of the query, else of "last", else the default
EffLimit(limit, last) == Least(IF limit # 0 THEN limit ELSE IF last < 0 THEN -last ELSE DL, ML)

Dec(d) == d  \* tenths

DoPut == \E t \in {RandomElement(prof.topics)}, c \in {RandomElement(prof.cons)}, x \in {RandomElement(prof.ttls)},
            s \in {RandomElement(prof.sizes)}, e \in {RandomElement(prof.encs)}, v \in {RandomElement(0..3)} :
           /\ Put(t, c, x)
           /\ Rec([op |-> "put", n |-> Len(msgs) + 1, topic |-> t, con |-> c, ttl |-> x, size |-> s, enc |-> e, var |-> v])
           /\ UNCHANGED batch
DoNewID == NewID /\ Rec([op |-> "newid", n |-> Len(msgs) + 1]) /\ UNCHANGED batch
DoPutId == \E t \in {RandomElement(prof.topics)}, c \in {RandomElement(prof.cons)}, x \in {RandomElement(prof.ttls)},
              s \in {RandomElement(prof.sizes)}, e \in {RandomElement(prof.encs)},
              n \in {IF prof.order THEN Len(msgs) ELSE RandomElement(IdleIds)} :
           /\ PutWithID(n, t, c, x)
           /\ Rec([op |-> "putid", n |-> n, ids |-> <<n>>, topic |-> t, con |-> c, ttl |-> x, size |-> s, enc |-> e, var |-> 0])
           /\ UNCHANGED batch
BulkMsgs(t, c, m) == [i \in 1..m |-> NewMsg(t, c, 0)]
DoBulk(ids) == \E t \in {RandomElement(prof.topics)}, c \in {RandomElement(prof.cons)}, m \in {RandomElement(prof.bulk)},
             s \in {RandomElement(prof.sizes)}, b \in {RandomElement({0, 1})} :
           /\ msgs' = msgs \o [i \in 1..m |-> [NewMsg(t, c, 0) EXCEPT !.dput = (b = 1)]]
           /\ UNCHANGED <<now, open, mutable, ngrp>>
           /\ Rec([op |-> "bulk", n |-> Len(msgs) + 1, m |-> m, topic |-> t, con |-> c, size |-> s, batch |-> b, withid |-> ids,
                   ids |-> IF ids THEN [i \in 1..m |-> Len(msgs) + i] ELSE <<>>])
           /\ UNCHANGED batch
DoNewIds == \E m \in {RandomElement(prof.bulk)} :
           /\ open
           /\ msgs' = msgs \o [i \in 1..m |-> [Idle EXCEPT !.isec = Sec(now)]]
           /\ UNCHANGED <<now, open, mutable, ngrp, batch>>
           /\ Rec([op |-> "newids", n |-> Len(msgs) + 1, m |-> m])
DoPutIds == \E t \in {RandomElement(prof.topics)}, c \in {RandomElement(prof.cons)}, s \in {RandomElement(prof.sizes)}, S \in {IdleIds}, b \in {RandomElement({0, 1})} :
           /\ open
           /\ msgs' = [n \in Ids |-> IF n \in S THEN [NewMsg(t, c, 0) EXCEPT !.isec = msgs[n].isec, !.dput = (b = 1)] ELSE msgs[n]]
           /\ UNCHANGED <<now, open, mutable, ngrp, batch>>
           /\ Rec([op |-> "putids", topic |-> t, con |-> c, size |-> s, batch |-> b, ids |-> SetToSortSeq(S, <)])
DoDelLast == \E n \in {RandomElement(Ends)} :
           /\ Delete(n) /\ Rec([op |-> "del", n |-> n, topic |-> msgs[n].topic, con |-> msgs[n].con])
           /\ UNCHANGED batch
DoDel == \E n \in {RandomElement(WithIds)} :
           /\ Delete(n) /\ Rec([op |-> "del", n |-> n, topic |-> msgs[n].topic, con |-> msgs[n].con])
           /\ UNCHANGED batch
DoBulkDel == \E m \in {RandomElement(2..9)} : \E S \in {{n \in WithIds : n % m # 0}} : \E q \in {SetToSortSeq(S, <)} :
           /\ msgs' = [n \in Ids |-> IF n \in S THEN Killed(msgs[n]) ELSE msgs[n]]
           /\ UNCHANGED <<now, open, mutable, ngrp, batch>>
           /\ Rec([op |-> "bulkdel", del |-> [i \in 1..Len(q) |-> [n |-> q[i], topic |-> msgs[q[i]].topic, con |-> msgs[q[i]].con]]])
DoRedel == \E n \in {RandomElement({n \in Ids : msgs[n].st = "dead"})} :
           /\ UNCHANGED <<svars, batch>>
           /\ Rec([op |-> "redel", n |-> n, topic |-> msgs[n].topic, con |-> msgs[n].con])
DoGet == \E i \in {RandomElement(1..Len(Probes))}, l \in {RandomElement(prof.limits)}, la \in {RandomElement(prof.lasts)}, v \in {RandomElement({0, 1})} :
         \E l2 \in {IF la < 0 THEN 0 ELSE l} :
           /\ UNCHANGED <<svars, batch>>
           /\ Rec([op |-> "get", topic |-> Probes[i].t, con |-> Probes[i].c, limit |-> l2, last |-> la, var |-> v,
                   want |-> Result(Probes[i].t, Probes[i].c, Cutoff(la), EffLimit(l2, la))])
DoAdv == \E d \in {RandomElement(prof.advs)} : Advance(d) /\ Rec([op |-> "adv", d |-> d]) /\ UNCHANGED batch
DoSync == Sync /\ Rec([op |-> "sync"]) /\ UNCHANGED batch
DoReopen == IF open THEN Close /\ Rec([op |-> "close"]) /\ UNCHANGED batch
            ELSE \E mu \in {hist[1].cfg.mutable} : Open(mu) /\ Rec([op |-> "open"]) /\ UNCHANGED batch
\* some attempts to open the DB are refused before it is opened again
DoCrash == \E v \in {RandomElement({0, 0, 0, 1, 2, 3})} :
             Crash({}, {}) /\ Rec([op |-> "crash", alive |-> SetToSeq(Live), var |-> v]) /\ UNCHANGED batch
DoRefused == \E v \in {RandomElement(0..3)} : Refused /\ Rec([op |-> "refused", var |-> v]) /\ UNCHANGED batch
DoBad   == \E v \in {RandomElement(0..13)} : UNCHANGED <<svars, batch>> /\ Rec([op |-> "bad", var |-> v])
DoBadKey == Settled /\ Close /\ Rec([op |-> "badkey"]) /\ UNCHANGED batch
\* the store is closed before a batch is committed: nothing of the batch is left
DoCloseIn == \E t \in {RandomElement(prof.topics)} :
             /\ CloseInBatch
             /\ Rec([op |-> "closein", n |-> Len(msgs) + 1, topic |-> t, con |-> 0, size |-> "s", var |-> 0]) /\ UNCHANGED batch
DoClosedOp == \E v \in {RandomElement(0..9)} : UNCHANGED <<svars, batch>> /\ Rec([op |-> "closedop", var |-> v])

(* A batch is put together in several steps and then committed or rolled back. *)
BPuts == SelectSeq(batch, LAMBDA o : o.op = "put")
BDels == {batch[i].n : i \in {j \in 1..Len(batch) : batch[j].op = "del"}}
BMine == {batch[i].n : i \in {j \in 1..Len(batch) : batch[j].op = "put" /\ batch[j].withid}}
BWritten == \E i \in 1..Len(batch) : batch[i].op = "write"
BOpen  == [op |-> "begin"]
StartBatch == batch' = <<BOpen>> /\ UNCHANGED <<svars, hist>>
BAdd(o) == batch' = Append(batch, o) /\ UNCHANGED <<svars, hist>>
BatchStep ==
  \E r \in {RandomElement(1..24)} :
  CASE r <= 10 ->
         \E t \in {RandomElement(prof.topics)}, c \in {RandomElement(prof.cons)}, x \in {RandomElement(prof.ttls)},
            s \in {RandomElement(prof.sizes)}, e \in {RandomElement(prof.encs)}, w \in {RandomElement({TRUE, FALSE})} :
           BAdd([op |-> "put", n |-> Len(msgs) + Len(BPuts) + 1, topic |-> t, con |-> c, ttl |-> x, size |-> s, enc |-> e, withid |-> w])
    [] r \in 11..13 /\ mutable /\ ~prof.crash /\ ~BWritten /\ ((WithIds \ BDels) \cup (BMine \ BDels)) # {} ->
         \E n \in {RandomElement((WithIds \ BDels) \cup (BMine \ BDels))} :
           BAdd([op |-> "del", n |-> n, topic |-> IF n \in Ids THEN msgs[n].topic ELSE
                                             (CHOOSE o \in {batch[i] : i \in {j \in 1..Len(batch) : batch[j].op = "put"}} : o.n = n).topic,
                                    con |-> IF n \in Ids THEN msgs[n].con ELSE
                                             (CHOOSE o \in {batch[i] : i \in {j \in 1..Len(batch) : batch[j].op = "put"}} : o.n = n).con])
    [] r = 14 /\ ~BWritten -> BAdd([op |-> "look"])
    [] r \in 15..18 /\ BDels = {} -> BAdd([op |-> "write"])
    [] r \in 19..20 /\ ~(prof.crash /\ BWritten) ->   \* what Write wrote is on disk until it is rolled back
         /\ Rollback(batch)
         /\ Rec([op |-> "batch", commit |-> FALSE, ops |-> batch, ids |-> <<>>])
         /\ batch' = <<>>
    [] OTHER ->
         /\ Commit(batch)
         /\ Rec([op |-> "batch", commit |-> TRUE, ops |-> batch, ids |-> SetToSeq(BMine \ BDels)])
         /\ batch' = <<>>

\* initial states are drawn once, so there are several
GInit == /\ Init
         /\ batch = <<>> /\ k = 0
         /\ prof = TheProfile
         /\ \E z \in 1..40 : \E c \in {RandomElement(prof.cfgs)}, v \in {RandomElement(0..999)} :
              /\ mutable = c.mutable
              /\ hist = <<[op |-> "cfg", cfg |-> c, profile |-> ProfileName, v |-> v, crash |-> prof.crash, probes |-> prof.probes]>>

Do(w) == CASE w = "put" -> DoPut [] w = "newid" -> DoNewID [] w = "putid" -> DoPutId
           [] w = "bulk" -> DoBulk(FALSE) [] w = "bulkid" -> DoBulk(TRUE) [] w = "del" -> DoDel [] w = "bulkdel" -> DoBulkDel
           [] w = "newids" -> DoNewIds [] w = "putids" -> DoPutIds [] w = "dellast" -> DoDelLast
           [] w = "redel" -> DoRedel [] w = "get" -> DoGet
           [] w = "adv" -> DoAdv [] w = "sync" -> DoSync [] w = "reopen" -> DoReopen
           [] w = "crash" -> DoCrash [] w = "batch" -> StartBatch [] w = "bad" -> DoBad
           [] w = "badkey" -> (IF Settled /\ open THEN DoBadKey ELSE DoAdv)
           [] w = "closein" -> DoCloseIn
           [] w = "closedop" -> DoClosedOp [] w = "refused" -> DoRefused

GNext ==
  /\ UNCHANGED prof
  /\ \/ /\ k < Steps
        /\ k' = k + 1
        /\ IF batch # <<>> THEN BatchStep
           ELSE \E m \in {Menu} : \E i \in {RandomElement(1..Len(m))} : Do(m[i])
     \/ /\ k = Steps
        /\ k' = k + 1
        /\ PrintT(ToJson(hist))
        /\ UNCHANGED <<svars, hist, batch>>

GSpec == GInit /\ [][GNext]_gvars

\* The generator only takes steps of the store (checked on every behaviour it prints).
TypeOK == /\ now \in Nat /\ open \in BOOLEAN /\ mutable \in BOOLEAN
          /\ \A n \in Ids : msgs[n].st \in {"idle", "live", "dead", "void"}
          /\ \A n \in Ids : msgs[n].synced => msgs[n].dput
=============================================================================
