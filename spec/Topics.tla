------------------------------ MODULE Topics ------------------------------
(***************************************************************************)
(* Topics and patterns of unitdb.  A topic is a non-empty sequence of      *)
(* levels.  Messages may be STORED under a pattern: "*" stands for exactly *)
(* one level, and a final "..." for any number of further levels (also     *)
(* none, so the parent is covered too).  A query names a concrete topic    *)
(* and selects the messages stored under every pattern that covers it.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Wild  == "*"
Multi == "..."

IsMulti(p) == Len(p) > 0 /\ p[Len(p)] = Multi
Stem(p)    == IF IsMulti(p) THEN SubSeq(p, 1, Len(p) - 1) ELSE p

IsConcrete(t) == \A i \in 1..Len(t) : t[i] # Wild /\ t[i] # Multi

Covers(p, t) ==
  LET s == Stem(p)
  IN  /\ IF IsMulti(p) THEN Len(t) >= Len(s) ELSE Len(t) = Len(s)
      /\ \A i \in 1..Len(s) : s[i] = Wild \/ s[i] = t[i]

\* All sequences of exactly n levels drawn from A, and of 1..n levels.
RECURSIVE SeqsOf(_, _)
SeqsOf(A, n) == IF n = 0 THEN {<<>>}
                ELSE {Append(s, a) : s \in SeqsOf(A, n - 1), a \in A}
TopicsUpTo(A, n)   == UNION {SeqsOf(A, k) : k \in 1..n}
PatternsUpTo(A, n) ==
  LET P == TopicsUpTo(A \cup {Wild}, n)
  IN  P \cup {Append(p, Multi) : p \in P} \cup {<<Multi>>}

(* Properties of the matching relation, checked by TLC in TopicsMC. *)
Reflexive(T)  == \A t \in T : Covers(t, t)
Literal(T)    == \A t, u \in T : Covers(t, u) <=> t = u
OneLevel(P, T) == \A p \in P, t \in T :
                     (~IsMulti(p) /\ Covers(p, t)) => Len(p) = Len(t)
\* A multi-level pattern covers a topic iff its stem covers some prefix.
PrefixClosed(P, T) == \A p \in P, t \in T :
    IsMulti(p) => (Covers(p, t) <=> \E k \in 0..Len(t) : Covers(Stem(p), SubSeq(t, 1, k)))
\* Covering is downward closed for a multi-level pattern.
DownClosed(P, T) == \A p \in P, t, u \in T :
    (IsMulti(p) /\ Covers(p, t) /\ Len(u) >= Len(t) /\ SubSeq(u, 1, Len(t)) = t) => Covers(p, u)
=============================================================================
