---------------------------- MODULE LockHistory ----------------------------
(* What callers that open and close one store at the same time may see.      *)
(*                                                                            *)
(* A history has the calls: a (handle), k ("open", "bad": open with options   *)
(* that are refused, "close"), b and e (moments at which it begins and ends), *)
(* r ("ok", "err", "killed"); the moments at which handles were killed with   *)
(* their process; and the messages that were put: n, s (the handle that put   *)
(* it was closed), d (it was deleted), and those found at the end.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

INF == 1000000000
Least(S) == CHOOSE x \in S : \A y \in S : x <= y

Calls(h) == {h.calls[i] : i \in DOMAIN h.calls}
Opens(h) == {o \in Calls(h) : o.k \in {"open", "bad"}}
Kills(h, o) == {h.kills[i].t : i \in {j \in DOMAIN h.kills : h.kills[j].a = o.a /\ h.kills[j].t > o.b}}
Closes(h, o) == {c \in Calls(h) : c.k = "close" /\ c.a = o.a /\ c.b > o.e}
\* a handle holds the store at least until its close begins, and at most until it ends
Until(h, o) == Least(Kills(h, o) \cup {c.b : c \in Closes(h, o)} \cup {INF})
Gone(h, o)  == IF o.r # "ok" THEN o.e
               ELSE Least(Kills(h, o) \cup {c.e : c \in Closes(h, o)} \cup {INF})

Two(h) == {o \in Opens(h) : o.r = "ok" /\ \E p \in Opens(h) : p # o /\ p.r = "ok" /\ p.e < o.e /\ Until(h, p) > o.e}
\* nobody else was about when it was refused
Idle(h) == {o \in Opens(h) : o.k = "open" /\ o.r = "err" /\
               ~\E p \in Opens(h) : p # o /\ ~(p.k = "open" /\ p.r = "err") /\ p.b < o.e /\ Gone(h, p) > o.b}
Accepted(h) == {o \in Opens(h) : o.k = "bad" /\ o.r = "ok"}
NotClosed(h) == {c \in Calls(h) : c.k = "close" /\ c.r = "err"}
Lost(h) == {p \in ToSet(h.puts) : p.s /\ p.n \notin ToSet(h.final)}
Revived(h) == {p \in ToSet(h.puts) : p.d /\ p.n \in ToSet(h.final)}
Other(h) == ToSet(h.final) \ {p.n : p \in ToSet(h.puts)}
Twice(h) == Len(h.final) # Cardinality(ToSet(h.final))

Bad(h) == {[what |-> "two handles have the database open", call |-> o] : o \in Two(h)}
     \cup {[what |-> "an open is refused, though nobody has the database open", call |-> o] : o \in Idle(h)}
     \cup {[what |-> "an open with a bad key succeeds", call |-> o] : o \in Accepted(h)}
     \cup {[what |-> "a close fails", call |-> c] : c \in NotClosed(h)}
     \cup {[what |-> "a message of a handle that was closed is lost", call |-> p] : p \in Lost(h)}
     \cup {[what |-> "a message that was deleted is found", call |-> p] : p \in Revived(h)}
     \cup {[what |-> "a message that nobody put", call |-> n] : n \in Other(h)}
     \cup (IF Twice(h) THEN {[what |-> "a message is found twice", call |-> h.final]} ELSE {})
     \cup (IF h.count # Len(h.final) THEN {[what |-> "the count is not the number of messages", call |-> h.count]} ELSE {})
=============================================================================
