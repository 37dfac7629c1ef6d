------------------------------- MODULE History -------------------------------
(* What the callers of a store may see when they call it at the same time.    *)
(*                                                                            *)
(* A history has, for every message, the interval in which its sequence was   *)
(* assigned (s) and the interval in which it was added (v); for every         *)
(* deletion, rollback and release the interval in which it happened; and for  *)
(* every query the interval and the result. An interval is a pair of times at *)
(* which a call began and ended; a call that did not succeed ends at INF.     *)
(* Nothing is assumed about the moment between the two at which a call takes  *)
(* effect, and a query over several topics need not see all of them at the    *)
(* same moment.                                                               *)
(*                                                                            *)
(* StoreConc.tla shows that every history of the abstract store satisfies     *)
(* this; HistoryTrace.tla judges recorded histories of the real one.          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

INF == 1000000000

\* messages that a query can find
MatchOf(h, q) == IF h.mode = "mem" THEN {q} ELSE ToSet(h.match[q + 1])

\* the crash loses what was not yet written
After(h, g) == h.crash # 0 /\ g.g[1] > h.crash

\* kinds of deletions: 0 delete, 1 rollback, 2 release of a block of memdb to the caller, 3 durable delete, 4 release that m may be part of
\* d takes m away for certain, before g begins
Gone(h, m, d, g) ==
  /\ ~(After(h, g) /\ d.d[1] < h.crash /\ d.k # 3)
  /\ CASE d.k = 0 -> d.d[1] > m.v[2]
       [] d.k = 4 -> FALSE
       [] OTHER -> TRUE
  /\ d.d[2] < g.g[1]

\* d can take m away before g ends
MayGo(m, d, g) == d.d[2] > m.v[1] /\ d.d[1] < g.g[2]

Definite(h, m, ds, g) ==
  /\ m.v[2] < g.g[1]
  /\ After(h, g) => m.dur
  /\ \A d \in ds : ~MayGo(m, d, g)

Possible(h, m, ds, g) ==
  /\ m.v[1] < g.g[2]
  /\ \A d \in ds : ~Gone(h, m, d, g)

\* m has a lower sequence than n if m.s[2] < n.s[1]
Lowest(h, R) == FoldLeft(LAMBDA a, i : IF h.msgs[i].s[2] < a THEN h.msgs[i].s[2] ELSE a, INF, R)

\* a message has a higher sequence than one before it
Rises(h, R) ==
  FoldLeft(LAMBDA a, i : IF a < h.msgs[i].s[1] THEN -1 ELSE IF h.msgs[i].s[2] < a THEN h.msgs[i].s[2] ELSE a, INF, R) = -1

BadGet(h, g, delsOf, ofTopic) ==
  LET R == g.res
      ms == ToSet(R)
      match == MatchOf(h, g.q)
      cand == UNION {IF t \in DOMAIN ofTopic THEN ofTopic[t] ELSE {} : t \in match}
      M(i) == h.msgs[i]
      missing == {i \in cand \ ms : Definite(h, M(i), delsOf[i], g)}
  IN IF 0 \in ms THEN {"a query returned what was never put"}
     ELSE
     (IF Cardinality(ms) # Len(R) THEN {"a message is returned twice"} ELSE {})
     \cup (IF \E i \in ms : i \notin cand THEN {"a message of another topic is returned"} ELSE {})
     \cup (IF \E i \in ms : ~Possible(h, M(i), delsOf[i], g)
           THEN {"a message is returned that was not yet put, or was deleted or rolled back before"} ELSE {})
     \cup (IF g.lim > 0 /\ Len(R) > g.lim THEN {"more messages than the limit"} ELSE {})
     \cup (IF h.mode = "mem"
           THEN (IF g.lim = 1 /\ R = <<>> /\ missing # {} THEN {"a key that is there is not found"} ELSE {})
                \cup
                (IF g.lim = 1 /\ \E i \in ms : \E j \in cand :
                        M(i).v[2] < M(j).v[1] /\ M(j).v[2] < g.g[1]
                        /\ ~\E d \in delsOf[j] : MayGo(M(j), d, g)
                 THEN {"a key has an earlier value"} ELSE {})
           ELSE (IF missing # {} /\ (Len(R) < g.lim \/ LET low == Lowest(h, R) IN \E i \in missing : low < M(i).s[1])
                 THEN {"a message that was put is not returned"} ELSE {})
                \cup
                (IF Rises(h, R) THEN {"messages are not in the order of their sequence"} ELSE {}))

Functionals(h) ==
  LET n == Len(h.msgs)
      Add(f, x, e) == [f EXCEPT ![x] = @ \cup {e}]
  IN [delsOf |-> TLCEval(FoldLeft(LAMBDA f, d : FoldLeft(LAMBDA a, m : Add(a, m, d), f, d.ms), [i \in 1..n |-> {}], h.dels)),
      ofTopic |-> TLCEval(FoldLeft(LAMBDA f, i : Add(f, h.msgs[i].t, i), [t \in {h.msgs[i].t : i \in 1..n} |-> {}], [i \in 1..n |-> i]))]

BadGets(h, fs) == UNION {{[what |-> w, get |-> i] : w \in BadGet(h, h.gets[i], fs.delsOf, fs.ofTopic)} : i \in 1..Len(h.gets)}

BadIDs(h) ==
  LET ord == SortSeq(h.ids, LAMBDA a, b : a.n < b.n)
      last == FoldLeft(LAMBDA a, x : IF a.bad THEN a
                                     ELSE [bad |-> a.n = x.n \/ x.i[2] < a.b, b |-> IF x.i[1] > a.b THEN x.i[1] ELSE a.b, n |-> x.n],
                       [bad |-> FALSE, b |-> 0, n |-> -1], ord)
  IN IF last.bad THEN {[what |-> "an ID is handed out twice, or is lower than one handed out before", get |-> last.n]} ELSE {}

BadCounts(h) ==
  {[what |-> "more messages are counted than were put", get |-> i] :
    i \in {i \in 1..Len(h.counts) : h.counts[i].n > Cardinality({m \in 1..Len(h.msgs) : h.msgs[m].v[1] < h.counts[i].c[2]})}}

\* nothing happens any more when the final count is taken
BadFinal(h, fs) ==
  IF h.final.n < 0 THEN {}
  ELSE LET g == [g |-> h.final.c]
           lo == {i \in 1..Len(h.msgs) : Definite(h, h.msgs[i], fs.delsOf[i], g)}
           hi == {i \in 1..Len(h.msgs) : Possible(h, h.msgs[i], fs.delsOf[i], g)}
       IN IF h.final.n < Cardinality(lo) \/ h.final.n > Cardinality(hi)
          THEN {[what |-> "the count is not the number of messages", get |-> h.final.n]} ELSE {}

\* after a crash a batch that was being committed is there or not, and every query finds the same
BadCrash(h, fs) ==
  IF h.crash = 0 THEN {}
  ELSE LET later == {i \in 1..Len(h.gets) : After(h, h.gets[i])}
           seen == UNION {ToSet(h.gets[i].res) : i \in later}
           part == {b \in 1..Len(h.bats) :
                      LET all == {m \in ToSet(h.bats[b]) : fs.delsOf[m] = {}}
                      IN all \cap seen # {} /\ ~(all \subseteq seen)}
       IN {[what |-> "a batch is recovered in part", get |-> b] : b \in part}
          \cup {[what |-> "a query finds something else when it is repeated after recovery", get |-> i] :
                  i \in {i \in later : \E j \in later : h.gets[i].q = h.gets[j].q /\ h.gets[i].lim = h.gets[j].lim /\ h.gets[i].res # h.gets[j].res}}

BadErrs(h) == {[what |-> "a call failed: " \o h.errs[i], get |-> i] : i \in 1..Len(h.errs)}

Bad(h) ==
  LET fs == Functionals(h)
  IN BadGets(h, fs) \cup BadIDs(h) \cup BadCounts(h) \cup BadFinal(h, fs) \cup BadCrash(h, fs) \cup BadErrs(h)
=============================================================================
