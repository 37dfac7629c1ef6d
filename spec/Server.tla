------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The messaging server of unitdb: clients connect, subscribe to topics,   *)
(* publish, relay what is stored, and take part in the delivery protocol   *)
(* (docs/utp.md).  A client keeps its session over connections and over    *)
(* restarts of the server: a message that is routed to a client belongs to *)
(* the client's session until the client has completed it (RECEIPT for     *)
(* reliable and batch delivery, ACKNOWLEDGE for express delivery).         *)
(*                                                                         *)
(* One message of one publication that is routed through one subscription  *)
(* is an item, and so is one message of the answer to one relay request.   *)
(* An item is announced by NOTIFY and fetched by the client if publisher   *)
(* and subscriber both ask for reliable delivery, is sent in a batch if    *)
(* the subscriber asks for batches or for a delay, or if it is relayed,    *)
(* and is sent right away otherwise.                                       *)
(***************************************************************************)
EXTENDS Topics, FiniteSets, TLC, SequencesExt

CONSTANTS Clients, Contract,        \* clients, and the contract of each
          Primary                   \* clients that may ask for new client IDs

VARIABLES now,       \* seconds
          conn,      \* client -> "off" or "on"
          sec,       \* client -> its connection needs keys
          subs,      \* client -> pattern -> [n, mode, delay]
          sess,      \* client -> items of its session
          store,     \* stored messages [k, topic, n, at, exp]
          np,        \* number of messages published so far
          ns         \* number of publications and relay requests so far
svars == <<now, conn, sec, subs, sess, store, np, ns>>

None == 0
Never == 1000000000
NoKey == [kind |-> "none", perm |-> {}, topic |-> <<>>, k |-> ""]
Universal == <<Multi>>

On == {c \in Clients : conn[c] = "on"}

Init ==
  /\ now = 0 /\ np = 0 /\ ns = 0
  /\ conn = [c \in Clients |-> "off"]
  /\ sec = [c \in Clients |-> FALSE]
  /\ subs = [c \in Clients |-> <<>>]
  /\ sess = [c \in Clients |-> {}]
  /\ store = {}

---------------------------------------------------------------------------
(* Access *)
Grants(c, key, acc, t) ==
  \/ ~sec[c]
  \/ key.kind = "key" /\ key.k = Contract[c] /\ acc \in key.perm /\ key.topic \in {t, Universal}
\* a key of a pattern does not allow to publish
GrantsPub(c, key, t) == ~sec[c] \/ (Grants(c, key, "w", t) /\ IsConcrete(key.topic))

---------------------------------------------------------------------------
(* Connections and sessions *)
Connect(c, secure, clean) ==
  /\ conn[c] = "off"
  /\ conn' = [conn EXCEPT ![c] = "on"]
  /\ sec' = [sec EXCEPT ![c] = secure]
  /\ sess' = IF clean THEN [sess EXCEPT ![c] = {}] ELSE sess
  /\ UNCHANGED <<now, subs, store, np, ns>>

\* the connection is closed by the client, by the server, or is lost
Drop(c) ==
  /\ conn[c] = "on"
  /\ conn' = [conn EXCEPT ![c] = "off"]
  /\ subs' = [subs EXCEPT ![c] = <<>>]
  /\ UNCHANGED <<now, sec, sess, store, np, ns>>

\* the server ends, or is killed, and starts again
Restart ==
  /\ conn' = [c \in Clients |-> "off"]
  /\ subs' = [c \in Clients |-> <<>>]
  /\ UNCHANGED <<now, sec, sess, store, np, ns>>

Wait(d) == now' = now + d /\ UNCHANGED <<conn, sec, subs, sess, store, np, ns>>

---------------------------------------------------------------------------
(* Subscriptions: reqs is a sequence of [p, mode, delay, key] *)
SubOne(s, r) == IF r.p \in DOMAIN s THEN [s EXCEPT ![r.p].n = @ + 1]
                ELSE (r.p :> [n |-> 1, mode |-> r.mode, delay |-> r.delay]) @@ s
UnsubOne(s, r) == IF r.p \notin DOMAIN s THEN s
                  ELSE IF s[r.p].n > 1 THEN [s EXCEPT ![r.p].n = @ - 1]
                  ELSE [q \in DOMAIN s \ {r.p} |-> s[q]]
Granted(c, reqs) == SelectSeq(reqs, LAMBDA r : Grants(c, r.key, "r", r.p))

Subscribe(c, reqs) ==
  /\ conn[c] = "on"
  /\ subs' = [subs EXCEPT ![c] = FoldLeft(SubOne, @, Granted(c, reqs))]
  /\ UNCHANGED <<now, conn, sec, sess, store, np, ns>>
Unsubscribe(c, reqs) ==
  /\ conn[c] = "on"
  /\ subs' = [subs EXCEPT ![c] = FoldLeft(UnsubOne, @, Granted(c, reqs))]
  /\ UNCHANGED <<now, conn, sec, sess, store, np, ns>>

---------------------------------------------------------------------------
(* Publications: msgs is a sequence of [t, ttl, key]; the messages before the first refused one are published *)
How(pm, s) == IF pm > 0 /\ s.mode > 0 THEN "notify"
              ELSE IF s.mode = 2 \/ s.delay > 0 THEN "batch" ELSE "direct"
RECURSIVE Accepted(_, _)
Accepted(c, msgs) == IF msgs = <<>> \/ ~GrantsPub(c, msgs[1].key, msgs[1].t) THEN <<>>
                     ELSE <<msgs[1]>> \o Accepted(c, Tail(msgs))
ItemsOf(c, pm, t, n, d) ==
  IF conn[d] # "on" \/ Contract[d] # Contract[c] THEN {}
  ELSE {[n |-> n, t |-> t, p |-> p, s |-> ns + 1, g |-> ns + 1, how |-> How(pm, subs[d][p]),
         mode |-> IF How(pm, subs[d][p]) = "batch" THEN 0 ELSE subs[d][p].mode, delay |-> subs[d][p].delay] :
           p \in {p \in DOMAIN subs[d] : Covers(p, t)}}
NewItems(c, pm, msgs, d) == UNION {ItemsOf(c, pm, msgs[i].t, np + i, d) : i \in 1..Len(msgs)}

Publish(c, pm, all) ==
  \E msgs \in {Accepted(c, all)} :
  /\ conn[c] = "on"
  /\ sess' = [d \in Clients |-> sess[d] \cup NewItems(c, pm, msgs, d)]
  /\ store' = store \cup {[k |-> Contract[c], t |-> msgs[i].t, n |-> np + i, at |-> now,
                           exp |-> IF msgs[i].ttl = 0 THEN Never ELSE now + msgs[i].ttl] : i \in 1..Len(msgs)}
  /\ np' = np + Len(all) /\ ns' = ns + 1
  /\ UNCHANGED <<now, conn, sec, subs>>

---------------------------------------------------------------------------
(* Delivery: the client fetches an item (nothing changes), and completes it *)
Complete(c, I) ==
  /\ conn[c] = "on" /\ I \subseteq sess[c]
  /\ sess' = [sess EXCEPT ![c] = @ \ I]
  /\ UNCHANGED <<now, conn, sec, subs, store, np, ns>>

\* stored messages of a topic that are not older than last and have not expired
Relayed(k, t, last) == {m \in store : m.k = k /\ m.t = t /\ m.at + last >= now /\ m.exp > now}

\* reqs is a sequence of [t, last, key]; the i-th answer is <<ns, i>>
RelayItems(c, reqs) ==
  UNION {IF ~Grants(c, reqs[i].key, "r", reqs[i].t) THEN {}
         ELSE {[n |-> m.n, t |-> m.t, p |-> m.t, s |-> ns + i, g |-> ns + 1, how |-> "batch", mode |-> 0, delay |-> 0] : m \in Relayed(Contract[c], reqs[i].t, reqs[i].last)} :
           i \in 1..Len(reqs)}
Relay(c, reqs) ==
  /\ conn[c] = "on"
  /\ sess' = [sess EXCEPT ![c] = @ \cup RelayItems(c, reqs)]
  /\ ns' = ns + Len(reqs)
  /\ UNCHANGED <<now, conn, sec, subs, store, np>>

---------------------------------------------------------------------------
(* Properties *)
TypeOK ==
  /\ now \in Nat /\ np \in Nat /\ ns \in Nat
  /\ \A c \in Clients : conn[c] \in {"on", "off"} /\ (conn[c] = "off" => subs[c] = <<>>)
  /\ \A c \in Clients : \A i \in sess[c] : i.how \in {"notify", "batch", "direct"}
\* nothing is routed to a client but messages of its contract on topics it subscribes to
Isolation == \A c \in Clients : \A i \in sess[c] :
               /\ Covers(i.p, i.t) /\ i.s <= ns
               /\ \E m \in store : m.n = i.n /\ m.k = Contract[c] /\ m.t = i.t
\* a message is routed at most once through a subscription
Once == \A c \in Clients : \A i, j \in sess[c] : (i.n = j.n /\ i.p = j.p /\ i.s = j.s) => i = j
\* an item leaves a session only by the client that owns it
Kept == [][\A c \in Clients : sess[c] \subseteq sess'[c] \/ (conn[c] = "on" \/ conn'[c] = "on")]_svars
\* who is not connected gets nothing new
Absent == [][\A c \in Clients : (conn[c] = "off" /\ conn'[c] = "off") => sess'[c] = sess[c]]_svars
\* connections and subscriptions of a client change by its own requests only, or by a restart
Own == [][Cardinality({c \in Clients : subs'[c] # subs[c]}) > 1 => \A c \in Clients : conn'[c] = "off"]_svars
\* what is stored stays
Stored == [][store \subseteq store']_svars
=============================================================================
