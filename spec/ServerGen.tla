----------------------------- MODULE ServerGen -----------------------------
(***************************************************************************)
(* Generator of behaviours of Server for replay into the real server.      *)
(* After a step the behaviour waits until the server is done (pend).       *)
(***************************************************************************)
EXTENDS Server, Json

CONSTANTS ProfileName, Steps

VARIABLES hist, k, prof, pend
gvars == <<svars, hist, k, prof, pend>>

GContract == [c \in 1..5 |-> IF c < 4 THEN "A" ELSE "B"]
GClients == 1..5
GPrimary == {1, 4}

Rep(x, n) == [i \in 1..n |-> x]
W(s) == FoldLeft(LAMBDA acc, e : acc \o Rep(e[1], e[2]), <<>>, s)

Ta == <<"a">>
Tb == <<"b">>
Tab == <<"a", "b">>
Tba == <<"b", "a">>
Taba == <<"a", "b", "a">>
Tops == <<Ta, Tb, Tab, Tba, Taba, <<"c">>>>
Pats == <<Ta, Tb, Tab, Tba, Taba, <<"*">>, <<"a", "*">>, <<"*", "b">>, <<"a", "...">>, <<"...">>, <<"*", "*", "a">>, <<"a", "b", "...">>>>

\* cfgs: [dur, count, bytes] of the batches of a connection
Base == [clients |-> 1..5, tops |-> 1..6, pats |-> 1..12, modes |-> {0, 0, 1, 2}, pmodes |-> {0, 1, 2}, delays |-> {0, 0, 0, 500, 1500}, ttls |-> {0, 0, 0, 3, 30}, secure |-> {FALSE}, clean |-> {FALSE, FALSE, TRUE},
         lasts |-> {2, 10, 60, 100000}, msgs |-> {1, 1, 2, 3}, sizes |-> {"e", "s", "m", "d"}, waits |-> {1, 3, 10}, drops |-> <<"disconnect", "close", "close">>, cfgs |-> <<[dur |-> 100, count |-> 100, bytes |-> 100000]>>,
         weights |-> <<<<"connect", 4>>, <<"drop", 2>>, <<"sub", 5>>, <<"unsub", 2>>, <<"pub", 10>>, <<"done", 5>>, <<"wait", 1>>>>]
Batchy == <<[dur |-> 100, count |-> 100, bytes |-> 100000], [dur |-> 0, count |-> 0, bytes |-> 0], [dur |-> 1000, count |-> 1, bytes |-> 100000], [dur |-> 300, count |-> 100, bytes |-> 40]>>
Profile ==
  CASE ProfileName = "pubsub" -> [Base EXCEPT !.cfgs = Batchy, !.drops = <<"disconnect", "close", "garbage", "cut", "second", "stale">>,
                                    !.weights = <<<<"connect", 5>>, <<"drop", 2>>, <<"sub", 7>>, <<"unsub", 3>>, <<"pub", 9>>, <<"burst", 4>>, <<"done", 3>>, <<"relay", 1>>, <<"wait", 1>>, <<"garbage", 2>>, <<"idle", 1>>, <<"crowd", 1>>>>]
    [] ProfileName = "garbage" -> [Base EXCEPT !.cfgs = Batchy, !.drops = <<"garbage", "cut", "second", "stale", "close">>, !.secure = {TRUE, FALSE, FALSE}, !.delays = {0}, !.modes = {0, 1},
                                    !.weights = <<<<"connect", 6>>, <<"drop", 5>>, <<"sub", 6>>, <<"unsub", 1>>, <<"pub", 6>>, <<"burst", 2>>, <<"doneall", 2>>, <<"relay", 1>>, <<"garbage", 16>>, <<"badid", 1>>>>]
    [] ProfileName = "batch" -> [Base EXCEPT !.cfgs = Batchy, !.modes = {2, 2, 1, 0}, !.pmodes = {0}, !.delays = {0, 200, 1000, 3000}, !.msgs = {1, 2, 5},
                                    !.weights = <<<<"connect", 4>>, <<"drop", 2>>, <<"sub", 6>>, <<"unsub", 1>>, <<"pub", 9>>, <<"burst", 4>>, <<"pubdrop", 2>>, <<"done", 3>>, <<"doneall", 2>>, <<"relay", 2>>>>]
    [] ProfileName = "session" -> [Base EXCEPT !.modes = {0, 1, 1, 2}, !.pmodes = {0, 1, 1, 2}, !.pats = {1, 2, 3, 6, 9}, !.tops = {1, 2, 3}, !.clean = {FALSE, FALSE, FALSE, FALSE, TRUE},
                                    !.weights = <<<<"connect", 7>>, <<"drop", 3>>, <<"sub", 5>>, <<"pub", 7>>, <<"burst", 3>>, <<"done", 5>>, <<"doneall", 1>>, <<"restart", 1>>, <<"kill", 1>>, <<"wait", 1>>, <<"pubdrop", 2>>, <<"verify", 3>>, <<"relay", 1>>>>]
    [] ProfileName = "flow" -> [Base EXCEPT !.clients = {1, 2, 4}, !.modes = {1, 1, 2}, !.pmodes = {1, 2}, !.pats = {1, 6, 10}, !.tops = {1}, !.msgs = {3, 8, 20}, !.sizes = {"e", "s", "m", "l", "d"}, !.clean = {FALSE},
                                    !.weights = <<<<"connect", 5>>, <<"drop", 2>>, <<"sub", 5>>, <<"pub", 6>>, <<"burst", 2>>, <<"done", 8>>, <<"doneall", 3>>, <<"restart", 1>>, <<"verify", 2>>, <<"wait", 1>>>>]
    [] ProfileName = "keys" -> [Base EXCEPT !.secure = {TRUE, TRUE, TRUE, FALSE}, !.cfgs = Batchy,
                                    !.weights = <<<<"connect", 5>>, <<"drop", 1>>, <<"sub", 9>>, <<"unsub", 2>>, <<"pub", 9>>, <<"burst", 4>>, <<"done", 1>>, <<"doneall", 1>>, <<"relay", 4>>, <<"badid", 3>>, <<"reqid", 2>>, <<"restart", 1>>>>]
    [] ProfileName = "relay" -> [Base EXCEPT !.pats = {1, 9, 10}, !.tops = {1, 2, 3}, !.ttls = {0, 2, 5, 30}, !.lasts = {0, 1, 2, 5, 20, 100000}, !.waits = {1, 2, 4, 20}, !.cfgs = Batchy,
                                    !.weights = <<<<"connect", 4>>, <<"drop", 1>>, <<"sub", 1>>, <<"pub", 6>>, <<"burst", 2>>, <<"doneall", 2>>, <<"relay", 8>>, <<"wait", 3>>, <<"restart", 1>>, <<"kill", 1>>>>]

---------------------------------------------------------------------------
SetSeq(S) == SetToSeq(S)
Stat == [c \in Clients |-> IF conn[c] = "on" THEN 1 ELSE 0]
Rec(r) == hist' = Append(hist, r @@ [at |-> now])
\* the time that the server needs for the batches of this step
BatchTime(new) == LET n == Max({0} \cup {Cardinality({i \in new[c] : i.how = "batch"}) : c \in Clients})
                      d == Max({0} \cup UNION {{i.delay : i \in {j \in new[c] : j.how = "batch"}} : c \in Clients})
                  IN IF n = 0 THEN 1 ELSE 4 + (d \div 1000) + 2 * n
New == [c \in Clients |-> sess'[c] \ sess[c]]
NewRec == LET d == SetToSeq({c \in Clients : New[c] # {}}) IN [i \in 1..Len(d) |-> [c |-> d[i], items |-> SetSeq(New[d[i]])]]

Off == {c \in prof.clients : conn[c] = "off"}
Up == {c \in prof.clients : conn[c] = "on"}
Cfg == prof.cfgs[RandomElement(1..Len(prof.cfgs))]
Pick(s) == s[RandomElement(1..Len(s))]

\* batches of c do not fill up before their time
CfgOf(c) == LET I == {i \in 1..Len(hist) : hist[i].op = "connect" /\ hist[i].c = c} IN hist[Max(I)].cfg
Roomy(c) == CfgOf(c).count = 100 /\ CfgOf(c).bytes > 1000

\* a key for a request of c on topic t. A key of another contract is for two levels or more: with few letters
\* the hash of a topic is the same in all contracts (KNOWN_FINDINGS)
Key(c, acc, t) ==
  IF ~sec[c] THEN (IF RandomElement(1..4) > 1 THEN NoKey ELSE [kind |-> "key", perm |-> {"r"}, topic |-> t, k |-> Contract[c]])
  ELSE LET x == RandomElement(1..12) other == RandomElement({"A", "B"}) IN
       CASE x = 1 -> NoKey
         [] x = 2 -> [kind |-> "bad", perm |-> {}, topic |-> t, k |-> ""]
         [] x = 3 -> [kind |-> "key", perm |-> {RandomElement({"r", "w"})}, topic |-> t, k |-> Contract[c]]
         [] x = 4 -> [kind |-> "key", perm |-> {"r", "w"}, topic |-> Pats[RandomElement(prof.pats)], k |-> Contract[c]]
         [] x = 5 /\ Len(t) > 1 -> [kind |-> "key", perm |-> {"r", "w"}, topic |-> t, k |-> other]
         [] x = 6 -> [kind |-> "key", perm |-> {"r", "w"}, topic |-> Universal, k |-> Contract[c]]
         [] x = 7 -> [kind |-> "key", perm |-> {}, topic |-> t, k |-> Contract[c]]
         [] x = 8 -> [kind |-> "key", perm |-> {acc}, topic |-> t, k |-> Contract[c]]
         [] OTHER -> [kind |-> "key", perm |-> {"r", "w"}, topic |-> t, k |-> Contract[c]]

Enabled(w) ==
  CASE w = "connect" -> Off # {}
    [] w \in {"drop", "sub", "pub", "relay", "verify", "reqid", "idle", "crowd"} -> Up # {}
    [] w = "unsub" -> \E c \in Up : DOMAIN subs[c] # {}
    [] w = "burst" -> Cardinality(Up) > 1
    [] w = "pubdrop" -> Cardinality(Up) > 1 /\ \E d \in Up : Roomy(d)
    [] w \in {"done", "doneall"} -> \E c \in Up : sess[c] # {}
    [] OTHER -> TRUE
Menu == IF Up = {} /\ RandomElement(1..3) > 1 THEN <<"connect">> ELSE SelectSeq(prof.weights, Enabled)

DoConnect == \E c \in {RandomElement(Off)}, s \in {RandomElement(prof.secure)}, cl \in {RandomElement(prof.clean)}, g \in {Cfg} :
  /\ Connect(c, s, cl) /\ pend' = 1
  /\ Rec([op |-> "connect", c |-> c, secure |-> s, clean |-> cl, cfg |-> g, items |-> SetSeq(sess'[c])])
DoDrop == \E c \in {RandomElement(Up)}, h \in {Pick(prof.drops)} :
  Drop(c) /\ pend' = 1 /\ Rec([op |-> "drop", c |-> c, how |-> h])
\* a client is silent for so long that the server closes its connection
DoIdle == \E c \in {RandomElement(Up)} :
  /\ conn' = [conn EXCEPT ![c] = "off"] /\ subs' = [subs EXCEPT ![c] = <<>>] /\ UNCHANGED <<now, sec, sess, store, np, ns>>
  /\ pend' = 130 /\ Rec([op |-> "idle", c |-> c])
DoSub == \E c \in {RandomElement(Up)} : \E n \in {RandomElement({1, 1, 1, 2, 3})} :
  \E ps \in {[i \in 1..n |-> Pats[RandomElement(prof.pats)]]} :
  \E r \in {[i \in 1..n |-> [p |-> ps[i], mode |-> RandomElement(prof.modes), delay |-> RandomElement(prof.delays), key |-> Key(c, "r", ps[i])]]} :
  Subscribe(c, r) /\ pend' = 1 /\ Rec([op |-> "sub", c |-> c, reqs |-> r, errs |-> n - Len(Granted(c, r))])
DoUnsub == \E c \in {RandomElement({c \in Up : DOMAIN subs[c] # {}})} : \E n \in {RandomElement({1, 1, 2})} :
  \E ps \in {[i \in 1..n |-> IF RandomElement(1..5) > 1 THEN RandomElement(DOMAIN subs[c]) ELSE Pats[RandomElement(prof.pats)]]} :
  \E r \in {[i \in 1..n |-> [p |-> ps[i], mode |-> 0, delay |-> 0, key |-> Key(c, "r", ps[i])]]} :
  Unsubscribe(c, r) /\ pend' = 1 /\ Rec([op |-> "unsub", c |-> c, reqs |-> r, errs |-> n - Len(Granted(c, r))])
\* on a secure connection a client also tries to publish to a pattern, which no key allows
WTop(c) == IF sec[c] /\ RandomElement(1..5) = 1 THEN Pats[RandomElement(prof.pats)] ELSE Tops[RandomElement(prof.tops)]
Msgs(c, n) ==
  {[i \in 1..n |-> [t |-> ts[i], ttl |-> RandomElement(prof.ttls), key |-> Key(c, "w", ts[i]), size |-> RandomElement(prof.sizes), opt |-> RandomElement({TRUE, FALSE})]] :
     ts \in {IF RandomElement(1..2) = 1 THEN [i \in 1..n |-> WTop(c)] ELSE LET x == WTop(c) IN [i \in 1..n |-> x]}}
DoPub == \E c \in {RandomElement(Up)}, n \in {RandomElement(prof.msgs)}, pm \in {RandomElement(prof.pmodes)} : \E m \in Msgs(c, n) :
  /\ Publish(c, pm, m) /\ pend' = BatchTime(New)
  /\ Rec([op |-> "pub", c |-> c, pm |-> pm, msgs |-> m, n |-> np + 1, s |-> ns + 1, acc |-> Len(Accepted(c, m)), new |-> NewRec])
\* several clients publish at the same time; publications commute
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
DoBurst == \E cs \in {SetToSeq(RandomElement({S \in SUBSET Up : Cardinality(S) \in 2..4}))} :
  \E ms \in {[i \in 1..Len(cs) |-> RandomElement(Msgs(cs[i], RandomElement(prof.msgs)))]}, pms \in {[i \in 1..Len(cs) |-> RandomElement(prof.pmodes)]} :
  \E acc \in {[i \in 1..Len(cs) |-> Accepted(cs[i], ms[i])]}, base \in {[i \in 1..Len(cs) |-> np + Sum([j \in 1..(i-1) |-> Len(ms[j])])]} :
  /\ sess' = [d \in Clients |-> sess[d] \cup UNION {UNION {ItemsOf(cs[i], pms[i], acc[i][j].t, base[i] + j, d) : j \in 1..Len(acc[i])} : i \in 1..Len(cs)}]
  /\ store' = store \cup UNION {{[k |-> Contract[cs[i]], t |-> acc[i][j].t, n |-> base[i] + j, at |-> now,
                                     exp |-> IF acc[i][j].ttl = 0 THEN Never ELSE now + acc[i][j].ttl] : j \in 1..Len(acc[i])} : i \in 1..Len(cs)}
  /\ np' = np + Sum([i \in 1..Len(cs) |-> Len(ms[i])]) /\ ns' = ns + 1
  /\ UNCHANGED <<now, conn, sec, subs>> /\ pend' = BatchTime(New)
  /\ Rec([op |-> "burst", s |-> ns + 1, new |-> NewRec,
           pubs |-> [i \in 1..Len(cs) |-> [op |-> "pub", c |-> cs[i], pm |-> pms[i], msgs |-> ms[i], n |-> base[i] + 1, acc |-> Len(acc[i])]]])
\* some thousand connections subscribe to the topic besides
DoCrowd == \E c \in {RandomElement(Up)}, pm \in {RandomElement(prof.pmodes)} : \E m \in Msgs(c, 1) :
  /\ Publish(c, pm, m) /\ pend' = BatchTime(New)
  /\ Rec([op |-> "crowd", c |-> c, pm |-> pm, msgs |-> m, n |-> np + 1, s |-> ns + 1, acc |-> Len(Accepted(c, m)), new |-> NewRec, var |-> RandomElement({50, 1100})])
\* subscribers lose their connections while the messages are on their way
DoPubDrop == \E d \in {RandomElement({d \in Up : Roomy(d)})} : \E c \in {RandomElement(Up \ {d})}, n \in {RandomElement(prof.msgs)}, pm \in {RandomElement(prof.pmodes)} : \E m \in Msgs(c, n) :
             \E msgs \in {Accepted(c, m)} : \E h \in {Pick(<<"disconnect", "close">>)} :
  /\ sess' = [e \in Clients |-> sess[e] \cup NewItems(c, pm, msgs, e)]
  /\ store' = store \cup {[k |-> Contract[c], t |-> msgs[i].t, n |-> np + i, at |-> now, exp |-> IF msgs[i].ttl = 0 THEN Never ELSE now + msgs[i].ttl] : i \in 1..Len(msgs)}
  /\ np' = np + Len(m) /\ ns' = ns + 1
  /\ conn' = [conn EXCEPT ![d] = "off"] /\ subs' = [subs EXCEPT ![d] = <<>>] /\ UNCHANGED <<now, sec>>
  /\ pend' = BatchTime(New)
  /\ Rec([op |-> "pubdrop", c |-> c, d |-> d, how |-> h, pm |-> pm, msgs |-> m, n |-> np + 1, s |-> ns + 1, acc |-> Len(Accepted(c, m)), new |-> NewRec])
\* the client completes an item, or all items of a batch step
Group(c, i) == IF i.how = "batch" THEN {j \in sess[c] : j.how = "batch" /\ j.g = i.g} ELSE {i}
DoDone == \E c \in {RandomElement({c \in Up : sess[c] # {}})} : \E i \in {RandomElement(sess[c])} : \E I \in {Group(c, i)} :
  Complete(c, I) /\ pend' = 1 /\ Rec([op |-> "done", c |-> c, items |-> SetSeq(I)])
DoDoneAll == \E c \in {RandomElement({c \in Up : sess[c] # {}})} :
  Complete(c, sess[c]) /\ pend' = 1 /\ Rec([op |-> "doneall", c |-> c, items |-> SetSeq(sess[c])])
DoVerify == \E c \in {RandomElement(Up)} : UNCHANGED svars /\ pend' = 1 /\ Rec([op |-> "verify", c |-> c, items |-> SetSeq(sess[c])])
\* two requests are answered at the same time if batches do not make the second one wait
DoRelay == \E c \in {RandomElement(Up)} : \E n \in {IF Roomy(c) THEN RandomElement({1, 1, 2, 3}) ELSE 1} :
  \E ts \in {[i \in 1..n |-> Tops[RandomElement(prof.tops)]]} :
  \E r0 \in {[i \in 1..n |-> [t |-> ts[i], last |-> RandomElement(prof.lasts), key |-> Key(c, "r", ts[i])]]} :
  \E r \in {IF Roomy(c) \/ Cardinality(RelayItems(c, r0)) <= 20 THEN r0 ELSE [i \in 1..n |-> [r0[i] EXCEPT !.last = 0]]} :
  /\ Relay(c, r) /\ pend' = BatchTime(New)
  /\ Rec([op |-> "relay", c |-> c, reqs |-> r, s |-> ns + 1, new |-> NewRec, errs |-> Cardinality({i \in 1..n : ~Grants(c, r[i].key, "r", r[i].t)})])
DoRestart(kind) == Restart /\ pend' = 60 /\ Rec([op |-> kind])
DoBadId == \E v \in {RandomElement(0..7)}, c \in {RandomElement(prof.clients)} : UNCHANGED svars /\ pend' = 1 /\ Rec([op |-> "badid", c |-> c, var |-> v])
DoReqId == \E c \in {RandomElement(Up)} : UNCHANGED svars /\ pend' = 1 /\ Rec([op |-> "reqid", c |-> c, ok |-> c \in Primary])
DoGarbage == \E v \in {RandomElement(0..15)} : UNCHANGED svars /\ pend' = 1 /\ Rec([op |-> "garbage", var |-> v])
DoWait == \E d \in {RandomElement(prof.waits)} : UNCHANGED svars /\ pend' = d /\ Rec([op |-> "wait"])

\* initial states are drawn once, so there are several
GInit == /\ k = 0 /\ pend = 0
         /\ prof = [Profile EXCEPT !.weights = W(@)]
         /\ Init
         /\ \E z \in 1..40 : \E v \in {RandomElement(0..9999)} : hist = <<[op |-> "cfg", v |-> v, profile |-> ProfileName, primary |-> SetToSeq(Primary), contracts |-> [c \in 1..5 |-> Contract[c]], at |-> 0]>>

Do(w) == CASE w = "connect" -> DoConnect [] w = "drop" -> DoDrop [] w = "sub" -> DoSub [] w = "unsub" -> DoUnsub [] w = "pub" -> DoPub
           [] w = "pubdrop" -> DoPubDrop [] w = "done" -> DoDone [] w = "doneall" -> DoDoneAll [] w = "verify" -> DoVerify [] w = "relay" -> DoRelay
           [] w = "restart" -> DoRestart("restart") [] w = "kill" -> DoRestart("kill") [] w = "badid" -> DoBadId [] w = "reqid" -> DoReqId
           [] w = "garbage" -> DoGarbage [] w = "crowd" -> DoCrowd [] w = "burst" -> DoBurst [] w = "wait" -> DoWait [] w = "idle" -> DoIdle

GNext ==
  /\ UNCHANGED prof
  /\ \/ /\ pend > 0 /\ pend' = 0 /\ Wait(pend) /\ UNCHANGED <<hist, k>>
     \/ /\ pend = 0 /\ k < Steps /\ k' = k + 1
        /\ \E m \in {Menu} : \E i \in {RandomElement(1..Len(m))} : Do(m[i])
     \/ /\ pend = 0 /\ k = Steps /\ k' = k + 1
        /\ PrintT(ToJson(Append(hist, [op |-> "end", at |-> now, on |-> LET d == SetToSeq({c \in Clients : conn[c] = "on"}) IN [i \in 1..Len(d) |-> [c |-> d[i], items |-> SetSeq(sess[d[i]])]]])))
        /\ UNCHANGED <<svars, hist, pend>>
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
