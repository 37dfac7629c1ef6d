---------------------------- MODULE ElectionGen -----------------------------
(***************************************************************************)
(* Draws troubles for a cluster: nodes are killed and started again, links  *)
(* are cut, held up (in one direction or both), and slow.  In the end the   *)
(* cluster is left alone; nodes in the last "calm" step never answer again. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

CONSTANT Steps

VARIABLES size, up, tr, fin
gvars == <<size, up, tr, fin>>

Names == [i \in 1..size |-> "n" \o ToString(i)]
All == {Names[i] : i \in 1..size}
Q == size \div 2 + 1
Pick(S) == RandomElement(S)
Some(S) == SetToSeq(RandomElement((SUBSET S) \ {{}, S}))
Time(x) == Pick({20, 100, 300, 700, 1500, 4000})

GInit ==
  /\ size \in {3, 4, 5} /\ fin = FALSE
  /\ up = All /\ tr = <<>>

\* in a step, because initial states are drawn once
Config ==
  /\ tr = <<>> /\ UNCHANGED <<size, up, fin>>
  /\ tr' = <<[op |-> "cfg", nodes |-> size, vote |-> Pick({4, 5, 8}), fail |-> Pick({2, 4, 8, 16}), delay |-> Pick({0, 2, 10, 30}), v |-> Pick(0..9999)]>>

Add(s) == tr' = Append(tr, s)

Kill == /\ up # {} /\ \E n \in {Pick(up)} : up' = up \ {n} /\ Add([op |-> "kill", n |-> n, ms |-> Time(0)])
Start == /\ up # All /\ \E n \in {Pick(All \ up)} : up' = up \cup {n} /\ Add([op |-> "start", n |-> n, ms |-> Time(0)])
Link == \E op \in {Pick({"cut", "hold", "oneway", "slow"})} :
          \E x \in {Some(All)} :
            /\ Add([op |-> op, a |-> x, b |-> SetToSeq(All \ ToSet(x)), v |-> Pick({5, 40, 90, 150}), ms |-> Time(0)])
            /\ UNCHANGED up
One == \E p \in {Pick({q \in All \X All : q[1] # q[2]})} :
         Add([op |-> Pick({"cut", "hold", "oneway", "slow"}), a |-> <<p[1]>>, b |-> <<p[2]>>, v |-> Pick({5, 40, 90, 150}), ms |-> Time(0)]) /\ UNCHANGED up
Heal == Add([op |-> "heal", a |-> SetToSeq(All), b |-> SetToSeq(All), ms |-> Pick({300, 1500, 3000})]) /\ UNCHANGED up

Trouble ==
  /\ ~fin /\ Len(tr) \in 1..Steps
  /\ \E x \in {Pick(1..10)} :
        CASE x <= 2 /\ Cardinality(up) > 1 -> Kill
          [] x <= 4 /\ up # All -> Start
          [] x <= 5 -> One
          [] x <= 8 -> Link
          [] OTHER -> Heal
  /\ UNCHANGED <<size, fin>>

Calm ==
  /\ ~fin /\ Len(tr) > Steps
  /\ \E a \in {IF Cardinality(up) > Q /\ Pick(1..3) = 1 THEN <<Pick(up)>> ELSE <<>>} :
       Add([op |-> "calm", a |-> a, ms |-> 3000 * tr[1].vote + 250 * tr[1].fail])
  /\ fin' = TRUE /\ UNCHANGED <<size, up>>

GNext == Config \/ Trouble \/ (Calm /\ PrintT(ToJson(tr')))
GSpec == GInit /\ [][GNext]_gvars
Shape == fin => up \subseteq All
=============================================================================
