----------------------------- MODULE Membership -----------------------------
(***************************************************************************)
(* Which nodes own the contracts.  The leader pings all nodes, takes those  *)
(* that failed Limit times in a row out of its ring, takes them in again    *)
(* when they answer, and tells the others in its pings.  A follower whose   *)
(* ring differs in two pings takes over the nodes of the leader.  Nodes     *)
(* crash and start again, leaders change, and pings fail, until the cluster *)
(* is left alone (stable); from then on a ping fails if and only if the     *)
(* node is down, and the leader stays.  Then all rings become those of the  *)
(* live nodes.                                                              *)
(* A fault leaves out what makes it so: a new leader counts the failures    *)
(* anew ("reset") and makes its ring of the nodes it was told and of itself *)
(* ("self"), and it remembers what it was told ("adopt", with "self").      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Nodes, Limit, Fault,
          Troubles     \* how many crashes, starts, elections and pings there are until the cluster is left alone

VARIABLES up, leaders, lead, ring, act, fails, skip, stable, k
vars == <<up, leaders, lead, ring, act, fails, skip, stable, k>>

Quorum == Cardinality(Nodes) \div 2 + 1
NoFails == [n \in Nodes |-> 0]

Init ==
  /\ up = Nodes /\ leaders = {} /\ lead = (CHOOSE n \in Nodes : TRUE) /\ stable = FALSE
  /\ ring = [n \in Nodes |-> Nodes] /\ act = [n \in Nodes |-> Nodes]
  /\ fails = [n \in Nodes |-> NoFails] /\ skip = [n \in Nodes |-> FALSE] /\ k = 0

Crash(n) ==
  /\ ~stable /\ n \in up /\ up' = up \ {n} /\ leaders' = leaders \ {n}
  /\ UNCHANGED <<lead, ring, act, fails, skip, stable>>

Start(n) ==
  /\ ~stable /\ n \notin up /\ up' = up \cup {n}
  /\ ring' = [ring EXCEPT ![n] = Nodes] /\ act' = [act EXCEPT ![n] = Nodes]
  /\ fails' = [fails EXCEPT ![n] = NoFails] /\ skip' = [skip EXCEPT ![n] = FALSE]
  /\ UNCHANGED <<leaders, lead, stable>>

\* a node wins an election; the leader before it may not know yet
Lead(n) ==
  /\ ~stable /\ n \in up \ leaders /\ Cardinality(up) >= Quorum
  /\ lead' = n /\ leaders' = leaders \cup {n}
  /\ fails' = IF Fault = "reset" THEN fails
              ELSE [fails EXCEPT ![n] = [m \in Nodes |-> IF m \in act[n] \cup {n} THEN 0 ELSE Limit]]
  /\ act' = IF Fault \in {"self", "adopt"} THEN act ELSE [act EXCEPT ![n] = @ \cup {n}]
  /\ ring' = IF Fault \in {"self", "adopt"} THEN ring ELSE [ring EXCEPT ![n] = act'[n]]
  /\ UNCHANGED <<up, skip, stable>>

Least(a, b) == IF a < b THEN a ELSE b

\* l pings all; those in ok get it, the others fail. Those in heard are in no later term.
Ping(l, ok, heard) ==
  LET f1 == [m \in Nodes |-> IF m = l \/ m \in ok THEN 0 ELSE Least(fails[l][m] + 1, Limit + 1)]
      rehash == \E m \in Nodes \ {l} : \/ m \notin ok /\ f1[m] = Limit /\ fails[l][m] # Limit
                                       \/ m \in ok /\ fails[l][m] >= Limit
      a1 == IF rehash THEN {m \in Nodes : m = l \/ f1[m] < Limit} ELSE act[l]
      differs == {v \in heard : ring[v] # ring[l]}
      taken == {v \in differs : skip[v]}
  IN /\ fails' = [fails EXCEPT ![l] = f1]
     /\ ring' = [v \in Nodes |-> IF v = l THEN (IF rehash THEN a1 ELSE ring[l]) ELSE IF v \in taken THEN act[l] ELSE ring[v]]
     /\ act' = [v \in Nodes |-> IF v = l THEN a1 ELSE IF v \in taken /\ Fault # "adopt" THEN act[l] ELSE act[v]]
     /\ skip' = [v \in Nodes |-> IF v \in differs THEN ~skip[v] ELSE skip[v]]
     /\ leaders' = leaders \ heard
     /\ UNCHANGED <<up, lead, stable>>

Unstable ==
  /\ ~stable
  /\ \E l \in leaders : \E ok \in SUBSET (up \ {l}) : \E heard \in {{}, ok} : (heard # {} => l = lead) /\ Ping(l, ok, heard)

\* the newest leader is up, and followed by all
Settle == ~stable /\ lead \in leaders /\ Cardinality(up) >= Quorum /\ stable' = TRUE /\ UNCHANGED <<up, leaders, lead, ring, act, fails, skip>>

Stable == stable /\ Ping(lead, up \ {lead}, up \ {lead})

Next == \/ k < Troubles /\ k' = k + 1 /\ ((\E n \in Nodes : Crash(n) \/ Start(n) \/ Lead(n)) \/ Unstable)
        \/ k' = 0 /\ (Settle \/ Stable)
Spec == Init /\ [][Next]_vars /\ WF_vars(Stable /\ k' = 0)

Agreed == \A v \in up : ring[v] = up
Consistent == \A v \in Nodes : ring[v] = act[v]
Converges == stable ~> [](stable => Agreed)
=============================================================================
