--------------------------------- MODULE Lock --------------------------------
(* Who has a store open: the lock file that handles of one or more processes  *)
(* use to keep each other out.                                                *)
(*                                                                            *)
(* A lock file has a name, which is in the directory or not, and the name may *)
(* stand for another file (inode) later.  A lock (flock) is on the inode, is  *)
(* held by a handle, and goes away with the process of the handle.  An open   *)
(* looks whether the name is there (the store was not closed), opens or       *)
(* creates the file, locks it, and looks again: the name may stand for        *)
(* another file by then.  It leaves a mark in the file that it has locked, so *)
(* that who gets the lock after a crash knows.  A close removes the name and  *)
(* then lets go of the lock.  An open that fails for another reason (bad      *)
(* options) does the same, but leaves the name where it found it.             *)
(*                                                                            *)
(* Fault is a mistake of the protocol, to show that the properties notice it. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Actors, Procs, ProcOf, Fault

VARIABLES name,    \* inode that the name stands for, 0 when it is not there
          owner,   \* inode -> handle that has it locked, or "none"
          mark,    \* inode -> a handle that had it locked left a mark in it
          crashed, \* the store was not closed when it was last in use
          pc, fd, unclean, bad

lvars == <<name, owner, mark, crashed, pc, fd, unclean, bad>>

\* an inode is used again when no handle has it open
Inodes == 1..(Cardinality(Actors) + 1)
Unused == CHOOSE i \in Inodes : \A a \in Actors : fd[a] # i

PCs == {"idle", "look", "create", "lock", "check", "held", "recheck", "remove", "release"}

Init ==
  /\ name = 0 /\ owner = [i \in Inodes |-> "none"] /\ crashed = FALSE
  /\ mark = [i \in Inodes |-> FALSE]
  /\ pc = [a \in Actors |-> "idle"]
  /\ fd = [a \in Actors |-> 0]
  /\ unclean = [a \in Actors |-> FALSE]
  /\ bad = [a \in Actors |-> FALSE]

Set(a, p) == pc' = [pc EXCEPT ![a] = p]

\* a call to Open, with options that are good or not
Begin(a, b) ==
  /\ pc[a] = "idle"
  /\ Set(a, "look") /\ bad' = [bad EXCEPT ![a] = b]
  /\ UNCHANGED <<mark, name, owner, crashed, fd, unclean>>
Look(a) ==
  /\ pc[a] = "look"
  /\ Set(a, "create") /\ unclean' = [unclean EXCEPT ![a] = name # 0]
  /\ UNCHANGED <<mark, name, owner, crashed, fd, bad>>
Create(a) ==
  /\ pc[a] = "create"
  /\ name' = IF name # 0 THEN name ELSE Unused
  /\ mark' = IF name # 0 THEN mark ELSE [mark EXCEPT ![Unused] = FALSE]
  /\ fd' = [fd EXCEPT ![a] = name']
  /\ Set(a, "lock")
  /\ UNCHANGED <<owner, crashed, unclean, bad>>
CanLock(a) == owner[fd[a]] = "none" \/ Fault = "nolock"
Flock(a) ==
  /\ pc[a] = "lock" /\ CanLock(a)
  /\ owner' = [owner EXCEPT ![fd[a]] = a]
  /\ Set(a, "check")
  /\ UNCHANGED <<mark, name, crashed, fd, unclean, bad>>
\* the call returns that the store is locked
Refused(a) ==
  /\ pc[a] = "lock" /\ ~CanLock(a)
  /\ fd' = [fd EXCEPT ![a] = 0] /\ Set(a, "idle")
  /\ UNCHANGED <<mark, name, owner, crashed, unclean, bad>>
Again(a) ==
  /\ pc[a] = "check" /\ name # fd[a] /\ Fault # "nocheck"
  /\ owner' = [owner EXCEPT ![fd[a]] = "none"] /\ fd' = [fd EXCEPT ![a] = 0] /\ Set(a, "create")
  /\ UNCHANGED <<mark, name, crashed, unclean, bad>>
\* the store was in use when the process died
Unclean(a) == unclean[a] \/ (mark[fd[a]] /\ Fault # "nomark")
\* the call returns a handle; what a crash left behind is put in order first
Opened(a) ==
  /\ pc[a] = "check" /\ (name = fd[a] \/ Fault = "nocheck") /\ ~bad[a]
  /\ Set(a, "held")
  /\ crashed' = IF Unclean(a) THEN FALSE ELSE crashed
  /\ mark' = [mark EXCEPT ![fd[a]] = TRUE]
  /\ UNCHANGED <<name, owner, fd, unclean, bad>>
\* the store is not opened for another reason
Failing(a) ==
  /\ pc[a] = "check" /\ (name = fd[a] \/ Fault = "nocheck") /\ bad[a]
  /\ mark' = [mark EXCEPT ![fd[a]] = TRUE]
  /\ IF Fault = "keep" \/ (Unclean(a) /\ Fault # "forget")
     THEN /\ owner' = IF Fault = "keep" THEN owner ELSE [owner EXCEPT ![fd[a]] = "none"]
          /\ fd' = [fd EXCEPT ![a] = 0] /\ Set(a, "idle")
     ELSE Set(a, IF Fault = "closefirst" THEN "release" ELSE "remove") /\ UNCHANGED <<owner, fd>>
  /\ UNCHANGED <<name, crashed, unclean, bad>>
\* a call to Close
Closing(a) ==
  /\ pc[a] = "held"
  /\ Set(a, IF Fault = "closefirst" THEN "release" ELSE "remove")
  /\ UNCHANGED <<mark, name, owner, crashed, fd, unclean, bad>>
Unlink(a) ==
  /\ pc[a] = "remove"
  /\ name' = 0
  /\ Set(a, IF Fault = "closefirst" THEN "idle" ELSE "release")
  /\ UNCHANGED <<mark, owner, crashed, fd, unclean, bad>>
Release(a) ==
  /\ pc[a] = "release"
  /\ owner' = [owner EXCEPT ![fd[a]] = IF @ = a THEN "none" ELSE @] /\ fd' = [fd EXCEPT ![a] = 0]
  /\ Set(a, IF Fault = "closefirst" THEN "remove" ELSE "idle")
  /\ UNCHANGED <<mark, name, crashed, unclean, bad>>
\* a process dies
In(p) == {a \in Actors : ProcOf[a] = p}
Kill(p) ==
  /\ pc' = [a \in Actors |-> IF a \in In(p) THEN "idle" ELSE pc[a]]
  /\ fd' = [a \in Actors |-> IF a \in In(p) THEN 0 ELSE fd[a]]
  /\ owner' = [i \in DOMAIN owner |-> IF owner[i] \in In(p) /\ Fault # "stale" THEN "none" ELSE owner[i]]
  /\ crashed' = (crashed \/ \E a \in In(p) : pc[a] = "held")
  /\ UNCHANGED <<mark, name, unclean, bad>>

Step(a) == \/ Look(a) \/ Create(a) \/ Flock(a) \/ Refused(a) \/ Again(a) \/ Opened(a) \/ Failing(a)
           \/ Unlink(a) \/ Release(a)

Next == \/ \E a \in Actors : Step(a) \/ Closing(a) \/ \E b \in BOOLEAN : Begin(a, b)
        \/ \E p \in Procs : Kill(p)

Spec == Init /\ [][Next]_lvars

---------------------------------------------------------------------------
TypeOK == /\ name \in Inodes \cup {0} /\ owner \in [Inodes -> Actors \cup {"none"}]
          /\ \A a \in Actors : pc[a] \in PCs /\ fd[a] \in Inodes \cup {0}

\* at most one handle has the store open
Exclusive == Cardinality({a \in Actors : pc[a] = "held"}) <= 1

\* a store that nobody uses can be opened
Free == (\A a \in Actors : pc[a] = "idle") => name = 0 \/ owner[name] = "none"

\* what a crash left behind is put in order by the next open
Recovers == \A a \in Actors : pc[a] = "held" => ~crashed
=============================================================================
