----------------------------- MODULE StoreConc -----------------------------
(* A store used by several clients at the same time, one step of a call at a  *)
(* time. A put assigns the sequence and then adds the message; a query reads  *)
(* one topic after the other; a batch becomes visible as a whole and may be   *)
(* rolled back. The history of every run satisfies History.tla, so that a     *)
(* history that does not is not one of this store. Fault names a mistake that *)
(* the store makes: History.tla has to notice it.                             *)
EXTENDS History

CONSTANTS Scripts, \* possible programs of the clients
          Fault

VARIABLES now, prog, pc, loc, msgs, seq, live, dels, gets, ids

vars == <<now, prog, pc, loc, msgs, seq, live, dels, gets, ids>>

Clients == DOMAIN prog
Topics == {0, 1}

Init ==
  /\ prog \in Scripts
  /\ now = 1 /\ seq = 0
  /\ pc = [c \in DOMAIN prog |-> "idle"]
  /\ loc = [c \in DOMAIN prog |-> [op |-> 0]]
  /\ msgs = <<>> /\ live = {} /\ dels = <<>> /\ gets = <<>> /\ ids = <<>>

Goto(c, l) == pc' = [pc EXCEPT ![c] = l]
Tick == now' = now + 1
Idle(c) == pc[c] = "idle" /\ prog[c] # <<>>
Op(c) == Head(prog[c])
Pop(c) == prog' = [prog EXCEPT ![c] = Tail(@)]

\* put, and a batch of two (one of each topic)
PutBegin(c) ==
  /\ Idle(c) /\ Op(c)[1] \in {"put", "batch", "rollback"}
  /\ LET new == IF Op(c)[1] = "put" THEN <<Op(c)[2]>> ELSE <<0, 1>>
         n == Len(msgs)
     IN /\ msgs' = msgs \o [i \in 1..Len(new) |-> [t |-> new[i], s |-> <<now, INF>>, v |-> <<now, INF>>, dur |-> TRUE, no |-> 0]]
        /\ loc' = [loc EXCEPT ![c] = [op |-> Op(c)[1], ms |-> [i \in 1..Len(new) |-> n + i]]]
  /\ Goto(c, "seq") /\ Tick
  /\ UNCHANGED <<prog, seq, live, dels, gets, ids>>

PutSeq(c) ==
  /\ pc[c] = "seq"
  /\ LET ms == loc[c].ms
         no(i) == IF Fault = "order" THEN 100 - seq - i ELSE seq + i
     IN /\ msgs' = [m \in DOMAIN msgs |-> IF \E i \in DOMAIN ms : ms[i] = m
                     THEN [msgs[m] EXCEPT !.no = no(CHOOSE i \in DOMAIN ms : ms[i] = m)] ELSE msgs[m]]
        /\ seq' = seq + Len(ms)
  /\ Goto(c, "add") /\ Tick
  /\ UNCHANGED <<prog, loc, live, dels, gets, ids>>

PutAdd(c) ==
  /\ pc[c] = "add"
  /\ live' = IF Fault = "lost" /\ \E i \in ToSet(loc[c].ms) : i = 2 THEN live ELSE live \cup ToSet(loc[c].ms)
  /\ Goto(c, IF loc[c].op = "rollback" THEN "undo" ELSE "end") /\ Tick
  /\ UNCHANGED <<prog, loc, msgs, seq, dels, gets, ids>>

Undo(c) ==
  /\ pc[c] = "undo"
  /\ live' = IF Fault = "rollback" THEN live ELSE live \ ToSet(loc[c].ms)
  /\ Goto(c, "undone") /\ Tick
  /\ UNCHANGED <<prog, loc, msgs, seq, dels, gets, ids>>

Undone(c) ==
  /\ pc[c] = "undone"
  /\ dels' = Append(dels, [ms |-> loc[c].ms, d |-> <<msgs[loc[c].ms[1]].v[1], now>>, k |-> 1])
  /\ Goto(c, "idle") /\ Pop(c) /\ Tick
  /\ UNCHANGED <<loc, msgs, seq, live, gets, ids>>

PutEnd(c) ==
  /\ pc[c] = "end"
  /\ msgs' = [m \in DOMAIN msgs |-> IF m \in ToSet(loc[c].ms) THEN [msgs[m] EXCEPT !.s[2] = now, !.v[2] = now] ELSE msgs[m]]
  /\ Goto(c, "idle") /\ Pop(c) /\ Tick
  /\ UNCHANGED <<loc, seq, live, dels, gets, ids>>

DelBegin(c) ==
  /\ Idle(c) /\ Op(c)[1] = "del"
  /\ \E m \in DOMAIN msgs :
       /\ msgs[m].v[2] < now
       /\ loc' = [loc EXCEPT ![c] = [op |-> "del", m |-> m, at |-> Len(dels) + 1]]
       /\ dels' = Append(dels, [ms |-> <<m>>, d |-> <<now, INF>>, k |-> 0])
  /\ Goto(c, "del") /\ Tick
  /\ UNCHANGED <<prog, msgs, seq, live, gets, ids>>

DelDo(c) ==
  /\ pc[c] = "del"
  /\ live' = IF Fault = "stale" THEN live ELSE live \ {loc[c].m}
  /\ Goto(c, "delend") /\ Tick
  /\ UNCHANGED <<prog, loc, msgs, seq, dels, gets, ids>>

DelEnd(c) ==
  /\ pc[c] = "delend"
  /\ dels' = [dels EXCEPT ![loc[c].at].d[2] = now]
  /\ Goto(c, "idle") /\ Pop(c) /\ Tick
  /\ UNCHANGED <<loc, msgs, seq, live, gets, ids>>

\* nothing left to delete
DelSkip(c) ==
  /\ Idle(c) /\ Op(c)[1] = "del" /\ ~\E m \in DOMAIN msgs : msgs[m].v[2] < now
  /\ Pop(c) /\ UNCHANGED <<now, pc, loc, msgs, seq, live, dels, gets, ids>>

GetBegin(c) ==
  /\ Idle(c) /\ Op(c)[1] = "get"
  /\ loc' = [loc EXCEPT ![c] = [op |-> "get", b |-> now, lim |-> Op(c)[2], todo |-> IF Op(c)[2] = 8 THEN {0} ELSE Topics, found |-> {}]]
  /\ Goto(c, "scan") /\ Tick
  /\ UNCHANGED <<prog, msgs, seq, live, dels, gets, ids>>

GetScan(c) ==
  /\ pc[c] = "scan" /\ loc[c].todo # {}
  /\ \E t \in loc[c].todo :
       loc' = [loc EXCEPT ![c].todo = @ \ {t},
                          ![c].found = @ \cup {m \in live : msgs[m].t = t \/ Fault = "topic"}]
  /\ Tick
  /\ UNCHANGED <<prog, pc, msgs, seq, live, dels, gets, ids>>

RECURSIVE Desc(_)
Desc(S) == IF S = {} THEN <<>>
           ELSE LET m == CHOOSE m \in S : \A n \in S : msgs[m].no >= msgs[n].no IN <<m>> \o Desc(S \ {m})

GetEnd(c) ==
  /\ pc[c] = "scan" /\ loc[c].todo = {}
  /\ LET all == Desc(loc[c].found)
         k == IF Len(all) < loc[c].lim THEN Len(all) ELSE loc[c].lim
         r == IF Fault = "limit" THEN SubSeq(all, Len(all) - k + 1, Len(all)) ELSE SubSeq(all, 1, k)
     IN gets' = Append(gets, [g |-> <<loc[c].b, now>>, q |-> IF loc[c].lim = 8 THEN 1 ELSE 0, lim |-> loc[c].lim, res |-> IF Fault = "dup" /\ r # <<>> THEN r \o <<r[Len(r)]>> ELSE r])
  /\ Goto(c, "idle") /\ Pop(c) /\ Tick
  /\ UNCHANGED <<loc, msgs, seq, live, dels, ids>>

IdBegin(c) ==
  /\ Idle(c) /\ Op(c)[1] = "id"
  /\ loc' = [loc EXCEPT ![c] = [op |-> "id", b |-> now]]
  /\ Goto(c, "id") /\ Tick
  /\ UNCHANGED <<prog, msgs, seq, live, dels, gets, ids>>

IdDo(c) ==
  /\ pc[c] = "id"
  /\ loc' = [loc EXCEPT ![c] = [op |-> "id", b |-> loc[c].b, n |-> seq + 1]]
  /\ seq' = IF Fault = "id" THEN seq ELSE seq + 1
  /\ Goto(c, "idend") /\ Tick
  /\ UNCHANGED <<prog, msgs, live, dels, gets, ids>>

IdEnd(c) ==
  /\ pc[c] = "idend"
  /\ ids' = Append(ids, [i |-> <<loc[c].b, now>>, n |-> loc[c].n])
  /\ Goto(c, "idle") /\ Pop(c) /\ Tick
  /\ UNCHANGED <<loc, msgs, seq, live, dels, gets>>

Next == \E c \in Clients :
  \/ PutBegin(c) \/ PutSeq(c) \/ PutAdd(c) \/ Undo(c) \/ Undone(c) \/ PutEnd(c)
  \/ DelBegin(c) \/ DelDo(c) \/ DelEnd(c) \/ DelSkip(c)
  \/ GetBegin(c) \/ GetScan(c) \/ GetEnd(c)
  \/ IdBegin(c) \/ IdDo(c) \/ IdEnd(c)

Spec == Init /\ [][Next]_vars

\* the history up to now
H == [mode |-> "db", msgs |-> msgs, dels |-> dels, gets |-> gets, ids |-> ids, counts |-> <<>>, match |-> <<<<0, 1>>, <<0>>>>,
      final |-> IF \A c \in Clients : prog[c] = <<>> THEN [c |-> <<now, now>>, n |-> Cardinality(live)] ELSE [c |-> <<now, now>>, n |-> -1],
      crash |-> 0, errs |-> <<>>, bats |-> <<>>]

\* judged whenever a call has ended
Good == (\E c \in Clients : pc[c] = "idle") => Bad(H) = {}
=============================================================================
