------------------------------ MODULE ServerMC ------------------------------
(* All behaviours of Server with few clients, topics and messages. *)
EXTENDS Server
CONSTANTS MaxPub, Pats, Tops, Modes, MaxWait, MaxSub
MCContract == [c \in Clients |-> IF c = 3 THEN "B" ELSE "A"]
MCClients == {1, 2, 3}
MCPrimary == {1, 3}
PatsOne == {<<"*">>}
PatsSmall == {<<"a">>, <<"*">>}
PatsWide == {<<"a">>, <<"*">>, <<"a", "...">>, <<"...">>}
TopsSmall == {<<"a">>}
TopsWide == {<<"a">>, <<"a", "b">>}
RW(t) == [kind |-> "key", perm |-> {"r", "w"}, topic |-> t, k |-> "A"]
RO(t) == [kind |-> "key", perm |-> {"r"}, topic |-> t, k |-> "A"]
RB(t) == [kind |-> "key", perm |-> {"r", "w"}, topic |-> t, k |-> "B"]
VARIABLES log \* messages that got into sessions: <<client, publisher, n, p>>
mvars == <<svars, log>>
Track == log' = log \cup UNION {{<<c, i.n, i.p>> : i \in sess'[c] \ sess[c]} : c \in Clients}
MNext ==
  \/ \E c \in Clients, cl \in BOOLEAN : Connect(c, c = 2, cl)
  \/ \E c \in Clients : Drop(c)
  \/ Restart
  \/ now < MaxWait /\ Wait(1)
  \/ \E c \in Clients, p \in Pats, m \in Modes : \E k \in {RW(p), RO(<<"a">>), RB(p), NoKey} :
        (p \in DOMAIN subs[c] => subs[c][p].n < MaxSub) /\ Subscribe(c, <<[p |-> p, mode |-> m, delay |-> 0, key |-> k]>>)
  \/ \E c \in Clients, p \in Pats : Unsubscribe(c, <<[p |-> p, key |-> RO(p)]>>)
  \/ np < MaxPub /\ \E c \in Clients, t \in Tops, m \in Modes : \E k \in {RW(t), RO(t), RB(t)} : Publish(c, m, <<[t |-> t, ttl |-> m, key |-> k]>>)
  \/ ns < MaxPub + 1 /\ \E c \in Clients, t \in Tops : \E k \in {RO(t), NoKey} : Relay(c, <<[t |-> t, last |-> 1, key |-> k]>>)
  \/ \E c \in Clients : \E i \in sess[c] : Complete(c, {i})
Init0 == Init /\ log = {}
Spec == Init0 /\ [][MNext /\ Track]_mvars
\* no item of a message comes back into a session (relayed ones apart) once it has been there
Again == [][\A c \in Clients : \A i \in sess'[c] \ sess[c] : <<c, i.n, i.p>> \in log => i.how = "batch"]_mvars
=============================================================================
