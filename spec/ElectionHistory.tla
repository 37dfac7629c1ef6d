--------------------------- MODULE ElectionHistory --------------------------
(***************************************************************************)
(* What a recorded run of a cluster may show (P25, P26). A history has       *)
(*   nodes  the configured names of all nodes                                *)
(*   asks   requests for votes that arrived: [c, i, t, v, a], candidate c of *)
(*          term t asked v at time a.  i is the incarnation of c: a node     *)
(*          that is started again has forgotten its term                    *)
(*   votes  answers: [v, i, c, t, ok, rt, a, z], v was asked at a and said   *)
(*          at z yes or no, and that its term was rt                         *)
(*   pings  [l, i, t, v, sig, act, a]: at a leader l of term t told v that   *)
(*          the nodes act are active and that its ring is that of sig        *)
(*   views  [v, i, t, l, at]: term and leader as v saw them at time at       *)
(*   final  [live, quiet, views]: after a long time without faults, which    *)
(*          nodes were live, since when there should have been no election,  *)
(*          and [v, t, l, ring, own] of the live nodes: own are the nodes    *)
(*          that own some contracts                                          *)
(*   rings  [nodes, own, sig]: the owners of these contracts in rings of nodes    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Most(h) == Len(h.nodes) \div 2 + 1

Yes(h) == {x \in ToSet(h.votes) : x.ok}
\* those that voted for l in term t until time a, without l itself
Voters(h, l, t, a) == {x.v : x \in {y \in Yes(h) : y.c = l /\ y.t = t /\ y.a <= a}}
Elected(h, l, t, a) == Cardinality(Voters(h, l, t, a) \ {l}) + 1 >= Most(h)

Leads(h) == {[l |-> x.l, i |-> x.i, t |-> x.t, a |-> x.a] : x \in ToSet(h.pings)}
            \cup {[l |-> x.v, i |-> x.i, t |-> x.t, a |-> x.at] : x \in {y \in ToSet(h.views) : y.l = y.v}}

\* P25
TwoVotes(h) == {x \in Yes(h) : (\E y \in Yes(h) : y.v = x.v /\ y.i = x.i /\ y.t = x.t /\ y.c # x.c) \/ \E y \in ToSet(h.asks) : y.c = x.v /\ y.i = x.i /\ y.t = x.t}
\* a node that is started again has forgotten that it voted: with its two votes there can be two leaders (a known finding)
Forgetful(h, l, m, t) ==
  \E n \in ToSet(h.nodes) : LET who(c) == IF c = n THEN {x.i : x \in {y \in Leads(h) : y.l = n /\ y.t = t}}
                                                   ELSE {x.i : x \in {y \in Yes(h) : y.v = n /\ y.c = c /\ y.t = t}}
                            IN \E i \in who(l) : \E j \in who(m) : i # j
TwoLeaders(h) == {x \in Leads(h) : \E y \in Leads(h) : y.t = x.t /\ y.l # x.l /\ ~Forgetful(h, x.l, y.l, x.t)}
Forgotten(h) == {x \in Leads(h) : \E y \in Leads(h) : y.t = x.t /\ y.l # x.l /\ Forgetful(h, x.l, y.l, x.t)}
NotElected(h) == {x \in Leads(h) : ~Elected(h, x.l, x.t, x.a)}
\* a node that was in a term does not vote for an earlier one, and tells the truth about its term
WrongVote(h) == {x \in ToSet(h.votes) : \/ x.ok /\ x.rt # x.t
                                        \/ ~x.ok /\ x.rt < x.t
                                        \/ x.ok /\ \E y \in ToSet(h.votes) : y.v = x.v /\ y.i = x.i /\ y.z < x.a /\ y.rt >= x.t
                                        \/ x.ok /\ \E y \in Leads(h) : y.l = x.v /\ y.i = x.i /\ y.a < x.a /\ y.t >= x.t}
BackInTerm(h) == {x \in ToSet(h.views) : \E y \in ToSet(h.views) : y.v = x.v /\ y.i = x.i /\ y.at < x.at /\ y.t > x.t}
\* who a node takes for the leader of its term is elected in this term
WrongLeader(h) == {x \in ToSet(h.views) : x.l # "" /\ ~Elected(h, x.l, x.t, x.at)}

\* P26: after a long time without faults
F(h) == h.final
Live(h) == ToSet(F(h).live)
Alive(h) == Cardinality(Live(h)) >= Most(h)
NoLeader(h) == IF ~Alive(h) THEN {} ELSE {x \in ToSet(F(h).views) : x.l \notin Live(h)}
NoAgreement(h) == IF ~Alive(h) THEN {} ELSE {x \in ToSet(F(h).views) : \E y \in ToSet(F(h).views) : x.l # y.l \/ x.t # y.t}
WrongRing(h) == IF ~Alive(h) THEN {} ELSE {x \in ToSet(F(h).views) : ToSet(x.ring) # Live(h)}
Unrest(h) == IF ~Alive(h) THEN {} ELSE {x \in ToSet(h.asks) : x.a >= F(h).quiet}
\* a ping to a node of the cluster names the nodes that the ring of the leader has
WrongOwner(h) == IF ~Alive(h) THEN {} ELSE {x \in ToSet(F(h).views) : \/ ToSet(x.own) \ Live(h) # {}
                                                                       \/ \E y \in ToSet(F(h).views) : x.own # y.own}
Contradiction(h) == {x \in ToSet(h.pings) : ToSet(x.sig) # ToSet(x.act)}

\* contracts move only to a node that is added
Moved(h) == {x \in ToSet(h.rings) : \E y \in ToSet(h.rings) :
               /\ ToSet(x.nodes) \subseteq ToSet(y.nodes)
               /\ \E k \in 1..Len(x.own) : y.own[k] # x.own[k] /\ y.own[k] \notin ToSet(y.nodes) \ ToSet(x.nodes)}
\* it does not matter in which order the nodes of a ring are named
Order(h) == {x \in ToSet(h.rings) : \E y \in ToSet(h.rings) : ToSet(x.nodes) = ToSet(y.nodes) /\ (x.own # y.own \/ x.sig # y.sig)}
\* the signature says which nodes there are
Alike(h) == {x \in ToSet(h.rings) : \E y \in ToSet(h.rings) : ToSet(x.nodes) # ToSet(y.nodes) /\ x.sig = y.sig}

Say(h, what, S) == {[what |-> what, x |-> e] : e \in S}

BadElection(h) ==
  Say(h, "a node voted twice in a term", TwoVotes(h))
  \cup Say(h, "two leaders in a term", TwoLeaders(h))
  \cup Say(h, "a leader without a majority", NotElected(h))
  \cup Say(h, "a vote that contradicts the term of the node", WrongVote(h))
  \cup Say(h, "the term of a node went back", BackInTerm(h))
  \cup Say(h, "a node follows a leader that was not elected in its term", WrongLeader(h))

BadMembership(h) ==
  Say(h, "no leader after a long time without faults", NoLeader(h))
  \cup Say(h, "nodes do not agree on leader and term after a long time without faults", NoAgreement(h))
  \cup Say(h, "the ring of a node is not that of the live nodes after a long time without faults", WrongRing(h))
  \cup Say(h, "an election although the leader is alive and reachable", Unrest(h))
  \cup Say(h, "a leader announces nodes that are not those of its ring", Contradiction(h))
  \cup Say(h, "live nodes do not agree on the owner of a contract, or it is not live", WrongOwner(h))
  \cup Say(h, "a contract moves between nodes that stay", Moved(h))
  \cup Say(h, "the order in which nodes are added decides on the ring", Order(h))
  \cup Say(h, "rings of different nodes have one signature", Alike(h))
=============================================================================
