------------------------------- MODULE LockGen ------------------------------
(* Schedules of handles that open and close one store, for replay: every step *)
(* of Lock is one grant to the real handle, which runs until its next call on *)
(* the lock file.  A finished behaviour is printed as one line of JSON.       *)
EXTENDS Lock, SequencesExt, TLC, Json

CONSTANTS Kill_, Calls_

A3 == {"a", "b", "c"}
P3 == {1, 2, 3}
One == [a \in A3 |-> 1]
Two == [a \in A3 |-> IF a = "c" THEN 2 ELSE 1]
Own == [a \in A3 |-> CASE a = "a" -> 1 [] a = "b" -> 2 [] OTHER -> 3]

H == INSTANCE LockHistory

VARIABLES script,  \* what each handle is still to do
          start,   \* what each handle did
          sched, calls, since, last, kills, printed

gvars == <<lvars, script, start, sched, calls, since, last, kills, printed>>

GInit ==
  /\ Init
  /\ \E z \in 1..200 : \E s \in {[a \in Actors |-> [i \in 1..RandomElement(1..(Calls_ + z * 0)) |-> RandomElement({"open", "open", "open", "bad"})]]} :
       script = s /\ start = s
  /\ sched = <<>> /\ calls = <<>> /\ last = "a" /\ kills = <<>> /\ printed = FALSE
  /\ since = [a \in Actors |-> 0]

T == Len(sched) + 1
Doing(a) == CASE pc[a] \in {"look", "create", "lock", "check"} -> IF bad[a] THEN "bad" ELSE "open"
              [] OTHER -> "close"
Call(a, k, r) == calls' = Append(calls, [a |-> a, k |-> k, b |-> since[a], e |-> T, r |-> r])
Busy(a) == pc[a] # "idle" \/ script[a] # <<>>

Grant(a) ==
  /\ sched' = Append(sched, a) /\ last' = a
  /\ UNCHANGED <<start, kills, printed>>
  /\ CASE pc[a] = "idle" ->
            /\ Begin(a, Head(script[a]) = "bad")
            /\ since' = [since EXCEPT ![a] = T] /\ script' = [script EXCEPT ![a] = Tail(@)]
            /\ UNCHANGED calls
       [] pc[a] = "held" -> Closing(a) /\ since' = [since EXCEPT ![a] = T] /\ UNCHANGED <<script, calls>>
       [] OTHER ->
            /\ Step(a)
            /\ UNCHANGED <<script, since>>
            /\ CASE pc'[a] = "held" -> Call(a, "open", "ok")
                 [] pc'[a] = "idle" -> Call(a, IF bad[a] THEN "bad" ELSE IF pc[a] = "lock" THEN "open" ELSE "close",
                                             IF bad[a] \/ pc[a] = "lock" THEN "err" ELSE "ok")
                 [] OTHER -> UNCHANGED calls

\* the calls of handles of the process end with it
DoKill(p) ==
  /\ Kill(p)
  /\ sched' = Append(sched, "!" \o ToString(p))
  /\ calls' = calls \o [i \in 1..Cardinality({a \in In(p) : pc[a] \notin {"idle", "held"}}) |->
                 LET a == SetToSeq({x \in In(p) : pc[x] \notin {"idle", "held"}})[i]
                 IN  [a |-> a, k |-> IF bad[a] THEN "bad" ELSE Doing(a), b |-> since[a], e |-> T, r |-> "killed"]]
  /\ kills' = kills \o [i \in 1..Cardinality(In(p)) |-> [a |-> SetToSeq(In(p))[i], t |-> T]]
  /\ UNCHANGED <<script, start, since, last, printed>>

More == \E a \in Actors : Busy(a)
GNext ==
  \/ /\ More
     /\ \E r \in {RandomElement(1..40)}, x \in {RandomElement({a \in Actors : Busy(a)})}, p \in {RandomElement(Procs)} :
          CASE r \in 38..40 /\ Kill_ -> DoKill(p)
            [] r \in 21..39 /\ Busy(last) -> Grant(last)
            [] OTHER -> Grant(x)
  \/ /\ ~More /\ ~printed
     /\ PrintT(ToJson([procs |-> ProcOf, scripts |-> start, sched |-> sched,
                       want |-> [a \in Actors |-> LET c == SelectSeq(calls, LAMBDA o : o.a = a) IN [i \in 1..Len(c) |-> c[i].r]]]))
     /\ printed' = TRUE
     /\ UNCHANGED <<lvars, script, start, sched, calls, since, last, kills>>

GSpec == GInit /\ [][GNext]_gvars

\* every behaviour is one that LockHistory accepts
Fine == printed => H!Bad([calls |-> calls, kills |-> kills, puts |-> <<>>, final |-> <<>>, count |-> 0]) = {}
=============================================================================
