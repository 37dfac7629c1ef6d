------------------------------ MODULE TopicsMC ------------------------------
(* Properties of the matching relation on every pattern and topic of up to  *)
(* Depth levels over Names.                                                  *)
EXTENDS Topics, FiniteSets, TLC
CONSTANTS Names, Depth
VARIABLE p

P == PatternsUpTo(Names, Depth)
T == TopicsUpTo(Names, Depth)

Init == p \in P
Next == UNCHANGED p
Spec == Init /\ [][Next]_p

\* a topic covers itself and nothing else
LiteralOK  == IsConcrete(p) => \A t \in T : Covers(p, t) <=> t = p
OneLevelOK == \A t \in T : (~IsMulti(p) /\ Covers(p, t)) => Len(p) = Len(t)
PrefixOK   == \A t \in T : IsMulti(p) =>
                 (Covers(p, t) <=> \E k \in 0..Len(t) : Covers(Stem(p), SubSeq(t, 1, k)))
ParentOK   == IsMulti(p) => \A t \in T : Covers(Stem(p), t) => Covers(p, t)
DownOK     == \A t, u \in T :
    (IsMulti(p) /\ Covers(p, t) /\ Len(u) >= Len(t) /\ SubSeq(u, 1, Len(t)) = t) => Covers(p, u)
\* making a level of a pattern a wildcard can only widen it, and by exactly the
\* topics that agree on every other level
WidenOK    == \A i \in 1..Len(Stem(p)) : p[i] # Wild =>
                 LET w == [p EXCEPT ![i] = Wild] IN
                 \A t \in T : /\ Covers(p, t) => Covers(w, t)
                              /\ (Covers(w, t) /\ t[i] = p[i]) => Covers(p, t)
AllOK      == p = <<Multi>> => \A t \in T : Covers(p, t)
=============================================================================
