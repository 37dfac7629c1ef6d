------------------------------ MODULE Election ------------------------------
(***************************************************************************)
(* Election of a leader among the nodes of a cluster.  A node that hears    *)
(* of no leader goes to the next term, votes for itself and asks the        *)
(* others.  A node votes for a candidate of a later term than its own, and  *)
(* is in that term from then on.  A candidate that has the votes of more    *)
(* than half of all nodes leads, and pings the others, which follow it      *)
(* unless they are in a later term.  What was sent can arrive at any later  *)
(* time, again, or never; a candidate that waits for votes does nothing else.         *)
(* Fault builds a mistake into the system (see ElectionMC).                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Nodes, Candidates, MaxTerm, Fault

VARIABLES term, leader,   \* node -> its term, its leader ("" if it has none)
          cand, got,      \* node -> it waits for votes; who voted for it
          net,            \* all requests, answers and pings that were ever sent
          votes,          \* answers ever given
          led             \* <<node, term, voters>> for each election that was won
vars == <<term, leader, cand, got, net, votes, led>>

Quorum == Cardinality(Nodes) \div 2 + 1

Init ==
  /\ term = [n \in Nodes |-> 0] /\ leader = [n \in Nodes |-> ""]
  /\ cand = [n \in Nodes |-> FALSE] /\ got = [n \in Nodes |-> {}]
  /\ net = {} /\ votes = {} /\ led = {}

Stand(n) ==
  /\ n \in Candidates /\ ~cand[n] /\ leader[n] # n /\ term[n] < MaxTerm
  /\ term' = [term EXCEPT ![n] = IF Fault = "sameterm" /\ @ > 0 THEN @ ELSE @ + 1]
  /\ leader' = [leader EXCEPT ![n] = ""]
  /\ cand' = [cand EXCEPT ![n] = TRUE]
  /\ got' = [got EXCEPT ![n] = {n}]
  /\ net' = net \cup {[k |-> "ask", c |-> n, t |-> term'[n], v |-> v] : v \in Nodes \ {n}}
  /\ UNCHANGED <<votes, led>>

Says(m) ==
  LET ok == CASE Fault = "twice" -> term[m.v] <= m.t
              [] Fault = "always" -> TRUE
              [] OTHER -> term[m.v] < m.t
  IN [k |-> "answer", v |-> m.v, c |-> m.c, t |-> m.t, ok |-> ok, rt |-> IF ok /\ Fault # "forget" THEN m.t ELSE term[m.v]]

Answer(m) ==
  /\ m.k = "ask" /\ ~cand[m.v]
  /\ LET r == Says(m)
     IN /\ term' = [term EXCEPT ![m.v] = r.rt]
        /\ leader' = IF r.ok THEN [leader EXCEPT ![m.v] = ""] ELSE leader
        /\ net' = net \cup {r}
        /\ votes' = votes \cup {r}
  /\ UNCHANGED <<cand, got, led>>

Count(m) ==
  /\ m.k = "answer" /\ cand[m.c] /\ m.t = term[m.c]
  /\ got' = [got EXCEPT ![m.c] = IF m.ok \/ Fault = "countno" THEN @ \cup {m.v} ELSE @]
  \* an answer of a node in a later term ends the election
  /\ cand' = [cand EXCEPT ![m.c] = m.ok \/ m.rt <= term[m.c]]
  /\ UNCHANGED <<term, leader, net, votes, led>>

Win(n) ==
  /\ cand[n] /\ Cardinality(got[n]) >= (IF Fault = "minority" THEN Cardinality(Nodes) \div 2 ELSE Quorum)
  /\ cand' = [cand EXCEPT ![n] = FALSE]
  /\ leader' = [leader EXCEPT ![n] = n]
  /\ led' = led \cup {[l |-> n, t |-> term[n], by |-> got[n]]}
  /\ UNCHANGED <<term, got, net, votes>>

GiveUp(n) ==
  /\ cand[n] /\ cand' = [cand EXCEPT ![n] = FALSE]
  /\ UNCHANGED <<term, leader, got, net, votes, led>>

Ping(l) ==
  /\ ~cand[l] /\ leader[l] = l
  /\ net' = net \cup {[k |-> "ping", l |-> l, t |-> term[l], v |-> v] : v \in Nodes \ {l}}
  /\ net' # net
  /\ UNCHANGED <<term, leader, cand, got, votes, led>>

Hear(m) ==
  /\ m.k = "ping" /\ ~cand[m.v]
  /\ IF m.t < term[m.v] /\ Fault # "stale" THEN UNCHANGED <<term, leader>>
     ELSE /\ term' = [term EXCEPT ![m.v] = m.t]
          /\ leader' = [leader EXCEPT ![m.v] = m.l]
  /\ UNCHANGED <<cand, got, net, votes, led>>

Next ==
  \/ \E n \in Nodes : Stand(n) \/ Win(n) \/ GiveUp(n) \/ Ping(n)
  \/ \E m \in net : Answer(m) \/ Count(m) \/ Hear(m)

Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
OneLeader == \A x, y \in led : x.t = y.t => x.l = y.l
OneVote == \A x, y \in votes : x.ok /\ y.ok /\ x.v = y.v /\ x.t = y.t => x.c = y.c
Majority == \A x \in led : Cardinality(x.by) >= Quorum /\ \A v \in x.by \ {x.l} : \E y \in votes : y.v = v /\ y.c = x.l /\ y.t = x.t /\ y.ok
Followed == \A n \in Nodes : leader[n] # "" => \E x \in led : x.l = leader[n] /\ x.t = term[n]
Forward == [][\A n \in Nodes : term'[n] >= term[n]]_vars
=============================================================================
