----------------------------- MODULE ElectionMC -----------------------------
EXTENDS Election, ElectionHistory
CONSTANT Clock    \* record times, and check that each history is accepted
Symmetry == Permutations(Nodes)


VARIABLE h
mvars == <<vars, h>>

H0 == [nodes |-> SetToSeq(Nodes), asks |-> <<>>, votes |-> <<>>, pings |-> <<>>, views |-> <<>>, at |-> 0]
Tick(x) == IF Clock THEN [x EXCEPT !.at = @ + 1] ELSE x
See(x) == IF ~Clock THEN x ELSE
  [x EXCEPT !.views = @ \o SetToSeq({[v |-> n, i |-> 0, t |-> term'[n], l |-> leader'[n], at |-> x.at] :
                                       n \in {n \in Nodes : term'[n] # term[n] \/ leader'[n] # leader[n]}})]
MInit == Init /\ h = H0
MNext ==
  \/ \E n \in Nodes : (Stand(n) \/ Win(n) \/ GiveUp(n) \/ Ping(n)) /\ h' = See(Tick(h))
  \/ \E m \in net : \/ Answer(m) /\ h' = IF Clock THEN See(Tick([h EXCEPT
                            !.asks = Append(@, [c |-> m.c, i |-> 0, t |-> m.t, v |-> m.v, a |-> h.at]),
                            !.votes = Append(@, Says(m) @@ [i |-> 0, a |-> h.at, z |-> h.at])]))
                           ELSE h
                    \/ Hear(m) /\ h' = IF Clock THEN See(Tick([h EXCEPT !.pings = Append(@, [l |-> m.l, i |-> 0, t |-> m.t, v |-> m.v, sig |-> <<>>, act |-> <<>>, a |-> h.at])])) ELSE h
                    \/ Count(m) /\ h' = Tick(h)
MSpec == MInit /\ [][MNext]_mvars
\* what a node does is seen later than it is done, so only complete ends are judged
Accepted == Clock => BadElection(h) = {}
=============================================================================
