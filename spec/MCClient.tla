------------------------------ MODULE MCClient ------------------------------
(***************************************************************************)
(* Closed model of one client: user threads that submit, map, evaluate     *)
(* graphs, cancel futures and disconnect; the connector thread with its    *)
(* send queue; the tables they share (guarded by one mutex, so a critical  *)
(* section is one step); and a scheduler that acknowledges uploads, takes, *)
(* refuses and answers tasks and forgets functions.                        *)
(* Every step reports its events to module Client: `bad` stays empty iff   *)
(* the protocol between the threads implements Client.                     *)
(***************************************************************************)
EXTENDS Client, Json

CONSTANTS NThreads, NFns, MaxSubs, MaxMaps, MaxGraphs, MaxDisc, MaxWd, MaxForgets, MaxRefuse, MaxBad, LogLen
T == 1..NThreads
Fn == {"f" \o ToString(i) : i \in 1..NFns}

VARIABLES s, bad,              \* the judge
          th,                  \* user threads
          q, stop, nr, fut, watched,   \* shared: send queue, stop flag, tasks waiting for their function, futures
          conn, snap,          \* connector thread
          in, sch, n, log
vars == <<s, bad, th, q, stop, nr, fut, watched, conn, snap, in, sch, n, log>>
shared == <<q, stop, nr, fut, watched>>

Ev(e, k, id) == [e |-> e, k |-> k, id |-> id, st |-> "", n |-> 0, val |-> "", fn |-> "", args |-> <<>>, keys |-> <<>>,
                 nodes |-> <<>>, res |-> <<>>]
Idle == [pc |-> "idle", op |-> "", k |-> "", f |-> "", todo |-> <<>>, subs |-> <<>>, val |-> ""]

Init ==
    /\ s = InitState([x |-> 0]) /\ bad = {}
    /\ th = [i \in T |-> Idle]
    /\ q = <<>> /\ stop = FALSE /\ nr = NoFun /\ fut = NoFun /\ watched = {}
    /\ conn = "top" /\ snap = <<>>
    /\ in = <<>>
    /\ sch = [todo |-> <<>>, has |-> {}, open |-> {}, gopen |-> {}]
    /\ n = [subs |-> 0, maps |-> 0, graphs |-> 0, disc |-> 0, wd |-> 0, forgets |-> 0, refuse |-> 0, bad |-> 0]
    /\ log = <<>>

RECURSIVE Judge(_, _, _)
Judge(x, b, es) == IF es = <<>> THEN <<x, b>>
                   ELSE Judge(Apply(x, Head(es)), b \cup Fails(x, Head(es)), Tail(es))
Seen(es) == LET r == Judge(s, bad, es) IN s' = r[1] /\ bad' = r[2]
Unseen == UNCHANGED <<s, bad>>

Room == LogLen = 0 \/ Len(log) < LogLen
Label(x) == Room /\ log' = IF LogLen = 0 THEN log ELSE log \o <<<<"c", 1>>, x>>
Quiet == log' = log

\* function of a submission or graph is part of its name's record in the judge
FnOf(x) == s.sub[x].fn
GNode(c, f) == <<[name |-> "n0", fn |-> f, args |-> <<"d1">>], [name |-> "d1", fn |-> "", args |-> <<c \o ".d1">>]>>
GVal(c) == Val(s.gr[c], "n0")
DoneEv(x, v) == [Ev("done", "", x) EXCEPT !.val = v]

(***************************************************************************)
(* User threads                                                            *)
(***************************************************************************)
Up(f) == n' = [n EXCEPT ![f] = @ + 1]
Submit(i, f) ==
    /\ Room /\ th[i].pc = "idle" /\ n.subs < MaxSubs /\ Up("subs")
    /\ LET x == "s" \o ToString(n.subs + 1) IN
       /\ th' = [th EXCEPT ![i] = [Idle EXCEPT !.pc = "crit", !.op = x, !.k = "submit", !.f = f, !.todo = <<x>>, !.subs = <<x>>]]
       /\ Seen(<<[Ev("call", "submit", x) EXCEPT !.fn = f, !.args = <<x \o ".a0">>]>>)
    /\ Label(<<"submit", i - 1, f>>) /\ UNCHANGED <<shared, conn, snap, in, sch>>

Map(i, f, k) ==
    /\ Room /\ th[i].pc = "idle" /\ n.maps < MaxMaps /\ Up("maps")
    /\ LET c == "m" \o ToString(n.maps + 1)
           subs == [j \in 1..k |-> c \o "." \o ToString(j - 1)] IN
       /\ th' = [th EXCEPT ![i] = [Idle EXCEPT !.pc = IF k = 0 THEN "wait" ELSE "crit", !.op = c, !.k = "map", !.f = f,
                                               !.todo = subs, !.subs = subs]]
       /\ Seen(<<[Ev("call", "map", c) EXCEPT !.fn = f, !.keys = subs]>>)
    /\ Label(<<"map", i - 1, f, k, "gen">>) /\ UNCHANGED <<shared, conn, snap, in, sch>>

Get(i, f, block) ==
    /\ Room /\ th[i].pc = "idle" /\ n.graphs < MaxGraphs /\ Up("graphs")
    /\ LET c == "g" \o ToString(n.graphs + 1) IN
       /\ th' = [th EXCEPT ![i] = [Idle EXCEPT !.pc = "crit", !.op = c, !.k = IF block THEN "getb" ELSE "get", !.f = f]]
       /\ Seen(<<[Ev("call", "get", c) EXCEPT !.nodes = GNode(c, f), !.keys = <<"n0">>, !.n = IF block THEN 1 ELSE 0]>>)
    /\ Label(<<"get", i - 1, <<<<f, <<-1>>>>>>, <<0>>, block>>) /\ UNCHANGED <<shared, conn, snap, in, sch>>

Disconnect(i) ==
    /\ Room /\ th[i].pc = "idle" /\ n.disc < MaxDisc /\ Up("disc")
    /\ th' = [th EXCEPT ![i] = [Idle EXCEPT !.pc = "disc"]]
    /\ Seen(<<Ev("call", "disconnect", "")>>)
    /\ Label(<<"disconnect", i - 1>>) /\ UNCHANGED <<shared, conn, snap, in, sch>>
Disconnected(i) ==
    /\ th[i].pc = "disc" /\ th' = [th EXCEPT ![i] = Idle] /\ stop' = TRUE
    /\ Seen(<<Ev("ret", "disconnect", "")>>)
    /\ Quiet /\ UNCHANGED <<q, nr, fut, watched, conn, snap, in, sch, n>>

Withdraw(i, x) ==
    /\ Room /\ th[i].pc = "idle" /\ n.wd < MaxWd /\ Up("wd") /\ x \in watched
    /\ IF fut[x] = "pending"
       THEN fut' = [fut EXCEPT ![x] = "cancelled"] /\ Seen(<<Ev("ucancel", "", x), DoneEv(x, "cancelled")>>)
       ELSE fut' = fut /\ Seen(<<Ev("ucancel", "", x), [Ev("ucancel", "", x) EXCEPT !.n = 1]>>)
    /\ Label(<<"fcancel", i - 1, 0>>) /\ UNCHANGED <<th, q, stop, nr, watched, conn, snap, in, sch>>

\* the critical section of a submission or graph
Buffer(x, f, qq, r) == \* queue after x is to be sent, tasks waiting
    IF Has(r, f) THEN <<qq, [r EXCEPT ![f] = Append(@, x)]>>
    ELSE <<Append(qq, [k |-> "FunctionRequest", id |-> f]), Put(r, f, <<x>>)>>
Crit(i) ==
    LET t == th[i] IN
    /\ t.pc = "crit"
    /\ IF stop
       THEN th' = [th EXCEPT ![i] = [@ EXCEPT !.pc = "raise", !.val = Gone]] /\ UNCHANGED <<q, nr, fut>>
       ELSE IF t.k \in {"get", "getb"}
       THEN /\ fut' = Put(fut, FutOf(t.op, "n0"), "pending") /\ q' = Append(q, [k |-> "GraphTask", id |-> t.op]) /\ nr' = nr
            /\ th' = [th EXCEPT ![i].pc = IF t.k = "getb" THEN "wait" ELSE "ret"]
       ELSE LET x == Head(t.todo) b == Buffer(x, t.f, q, nr) IN
            /\ fut' = Put(fut, x, "pending") /\ q' = b[1] /\ nr' = b[2]
            /\ th' = [th EXCEPT ![i] = [@ EXCEPT !.todo = Tail(@),
                                        !.pc = IF Len(t.todo) > 1 THEN "crit" ELSE IF t.k = "map" THEN "wait" ELSE "ret"]]
    /\ Unseen /\ Quiet /\ UNCHANGED <<stop, watched, conn, snap, in, sch, n>>

RetEv(t) == Ev("ret", IF t.k = "getb" THEN "get" ELSE t.k, t.op)
Raise(i) ==
    /\ th[i].pc = "raise" /\ th' = [th EXCEPT ![i] = Idle]
    /\ Seen(<<[RetEv(th[i]) EXCEPT !.st = "raised", !.val = th[i].val]>>)
    /\ Quiet /\ UNCHANGED <<shared, conn, snap, in, sch, n>>

Resolved(x) == fut[x] \notin {"pending", "running"}
Ret(i) == \* futures are handed out
    LET t == th[i] x == IF t.k = "get" THEN FutOf(t.op, "n0") ELSE t.op IN
    /\ t.pc = "ret" /\ th' = [th EXCEPT ![i] = Idle]
    /\ watched' = watched \cup {x}
    /\ Seen(<<[RetEv(t) EXCEPT !.st = "ok"]>> \o IF Resolved(x) THEN <<DoneEv(x, fut[x])>> ELSE <<>>)
    /\ Quiet /\ UNCHANGED <<q, stop, nr, fut, conn, snap, in, sch, n>>

Ok(v) == Starts(v, "v:")
Wait(i) ==
    LET t == th[i] xs == IF t.k = "map" THEN t.subs ELSE <<FutOf(t.op, "n0")>>
        failing == {j \in DOMAIN xs : Resolved(xs[j]) /\ ~Ok(fut[xs[j]]) /\ \A k \in 1..(j - 1) : Resolved(xs[k])}
    IN
    /\ t.pc = "wait"
    /\ IF failing # {}
       THEN /\ stop' = TRUE
            /\ th' = [th EXCEPT ![i] = [@ EXCEPT !.pc = "join", !.val = fut[xs[CHOOSE j \in failing : \A k \in failing : j <= k]]]]
            /\ Unseen
       ELSE /\ \A j \in DOMAIN xs : Resolved(xs[j])
            /\ th' = [th EXCEPT ![i] = Idle] /\ stop' = stop
            /\ Seen(<<[RetEv(t) EXCEPT !.st = "ok", !.res = [j \in DOMAIN xs |-> fut[xs[j]]]]>>)
    /\ Quiet /\ UNCHANGED <<q, nr, fut, watched, conn, snap, in, sch, n>>
Joined(i) ==
    /\ th[i].pc = "join" /\ conn = "over" /\ th' = [th EXCEPT ![i].pc = "raise"]
    /\ Unseen /\ Quiet /\ UNCHANGED <<shared, conn, snap, in, sch, n>>

(***************************************************************************)
(* The connector thread                                                    *)
(***************************************************************************)
SendEv(m) ==
    CASE m.k = "Task" -> [Ev("send", "Task", m.id) EXCEPT !.fn = FnOf(m.id), !.args = s.sub[m.id].args]
      [] m.k = "GraphTask" -> [Ev("send", "GraphTask", m.id) EXCEPT !.res = <<GVal(m.id)>>]
      [] OTHER -> Ev("send", m.k, m.id)
Wire(m) == IF m.k = "Task" THEN [k |-> "Task", id |-> m.id, f |-> FnOf(m.id)]
           ELSE IF m.k = "GraphTask" THEN [k |-> m.k, id |-> m.id, f |-> NodeOf(s.gr[m.id], "n0").fn]
           ELSE [k |-> m.k, id |-> m.id, f |-> m.id]
Send(m) == sch' = [sch EXCEPT !.todo = Append(@, Wire(m))]

ConnTop ==
    /\ conn = "top"
    /\ IF stop THEN /\ conn' = "exit"
                    /\ snap' = SetToSeq({x \in DOMAIN fut : OutOf(s, x).st = ""})
       ELSE conn' = "send" /\ snap' = snap
    /\ Unseen /\ Quiet /\ UNCHANGED <<th, shared, in, sch, n>>

ConnSend ==
    /\ conn = "send"
    /\ IF q = <<>> THEN conn' = "poll" /\ UNCHANGED <<s, bad, q, sch>>
       ELSE /\ Seen(<<SendEv(Head(q))>>) /\ Send(Head(q)) /\ q' = Tail(q) /\ conn' = conn
    /\ Quiet /\ UNCHANGED <<th, stop, nr, fut, watched, snap, in, n>>

Resolve(x, v) == IF fut[x] = "cancelled" THEN fut ELSE [fut EXCEPT ![x] = v]
Tell(x, v) == IF fut[x] # "cancelled" /\ x \in watched THEN <<DoneEv(x, v)>> ELSE <<>>
RecvEv(m) == [Ev("recv", m.k, m.id) EXCEPT !.st = m.st, !.val = m.val, !.res = IF m.k = "GraphTaskResult" THEN <<m.val>> ELSE <<>>]
Said(m) == IF m.st \in {"Success", "Failed"} THEN m.val ELSE "x:" \o m.st

ConnPoll ==
    /\ conn = "poll" /\ conn' = "top"
    /\ IF in = <<>> THEN UNCHANGED <<s, bad, q, nr, fut, in>>
       ELSE LET m == Head(in) IN
            /\ in' = Tail(in)
            /\ CASE m.k = "FunctionResponse" ->
                      /\ Seen(<<RecvEv(m)>>) /\ fut' = fut
                      /\ IF Has(nr, m.id)
                         THEN /\ q' = q \o [j \in DOMAIN nr[m.id] |-> [k |-> "Task", id |-> nr[m.id][j]]]
                              /\ nr' = Del(nr, m.id)
                         ELSE UNCHANGED <<q, nr>>
                 [] m.k = "TaskEcho" /\ m.st = "FunctionNotExists" ->
                      LET b == Buffer(m.id, FnOf(m.id), q, nr) IN
                      Seen(<<RecvEv(m)>>) /\ q' = b[1] /\ nr' = b[2] /\ fut' = fut
                 [] m.k = "TaskEcho" /\ m.st = "NoWorker" ->
                      Seen(<<RecvEv(m)>> \o Tell(m.id, "x:no")) /\ fut' = Resolve(m.id, "x:no") /\ UNCHANGED <<q, nr>>
                 [] m.k = "TaskEcho" ->
                      /\ Seen(<<RecvEv(m)>>) /\ UNCHANGED <<q, nr>>
                      /\ fut' = IF fut[m.id] = "pending" THEN [fut EXCEPT ![m.id] = "running"] ELSE fut
                 [] OTHER ->
                      LET x == IF m.k = "GraphTaskResult" THEN FutOf(m.id, "n0") ELSE m.id IN
                      Seen(<<RecvEv(m)>> \o Tell(x, Said(m))) /\ fut' = Resolve(x, Said(m)) /\ UNCHANGED <<q, nr>>
    /\ Quiet /\ UNCHANGED <<th, stop, watched, snap, sch, n>>

GraphOf(x) == CHOOSE c \in DOMAIN s.gr : FutOf(c, "n0") = x
ConnExit ==
    /\ conn = "exit"
    /\ IF snap = <<>> THEN conn' = "over" /\ Seen(<<[Ev("exit", "", "") EXCEPT !.st = "ok"]>>) /\ UNCHANGED <<fut, snap, sch>>
       ELSE LET x == Head(snap)
                g == ~Has(s.sub, x)
                id == IF g THEN GraphOf(x) ELSE x
                sent == IF g THEN s.gr[id].sent ELSE s.sub[id].sent
                ev == Ev("send", IF g THEN "GraphTaskCancel" ELSE "TaskCancel", IF sent THEN id ELSE "?")
            IN  /\ Seen(<<ev>> \o Tell(x, Gone)) /\ fut' = Resolve(x, Gone) /\ snap' = Tail(snap) /\ conn' = conn
                /\ sch' = [sch EXCEPT !.todo = Append(@, [k |-> ev.k, id |-> id, f |-> ""])]
    /\ Quiet /\ UNCHANGED <<th, q, stop, nr, watched, in, n>>

(***************************************************************************)
(* The scheduler                                                           *)
(***************************************************************************)
Msg(k, id, st, v) == [k |-> k, id |-> id, st |-> st, val |-> v]
Say(ms) == in' = in \o ms
Same == UNCHANGED <<s, bad, th, shared, conn, snap>>

Serve(how) ==
    /\ sch.todo # <<>>
    /\ LET m == Head(sch.todo) rest == [sch EXCEPT !.todo = Tail(@)] IN
       CASE m.k = "FunctionRequest" ->
              how = "SubmitOK" /\ sch' = [rest EXCEPT !.has = @ \cup {m.f}] /\ Say(<<Msg("FunctionResponse", m.f, "OK", "")>>) /\ n' = n
         [] m.k = "Task" /\ m.f \notin sch.has ->
              how = "SubmitOK" /\ sch' = rest /\ Say(<<Msg("TaskEcho", m.id, "FunctionNotExists", "")>>) /\ n' = n
         [] m.k = "Task" /\ m.f \in sch.has ->
              /\ IF how = "NoWorker" THEN n.refuse < MaxRefuse /\ Up("refuse") ELSE n' = n
              /\ sch' = IF how = "SubmitOK" THEN [rest EXCEPT !.open = @ \cup {m.id}] ELSE rest
              /\ Say(<<Msg("TaskEcho", m.id, how, "")>>)
         [] m.k = "GraphTask" ->
              /\ how = "SubmitOK" /\ sch' = [rest EXCEPT !.has = @ \cup {m.f}, !.gopen = @ \cup {m.id}] /\ n' = n
              /\ Say(<<Msg("FunctionResponse", m.f, "OK", "")>>)
         [] OTHER -> how = "SubmitOK" /\ sch' = [rest EXCEPT !.open = @ \ {m.id}, !.gopen = @ \ {m.id}] /\ n' = n /\ Say(<<>>)
    /\ Label(<<"serve", 1, how>>) /\ Same

Result(x, st) ==
    /\ x \in sch.open /\ sch' = [sch EXCEPT !.open = @ \ {x}]
    /\ IF st = "Success" THEN n' = n ELSE n.bad < MaxBad /\ Up("bad")
    /\ Say(<<Msg("TaskResult", x, st, CASE st = "Success" -> "v:r." \o x [] st = "Failed" -> "x:e." \o x [] OTHER -> "")>>)
    /\ Label(<<"result", 0, IF st = "Undecodable" THEN "badret" ELSE st>>) /\ Same
GResult(c, st) ==
    /\ c \in sch.gopen /\ sch' = [sch EXCEPT !.gopen = @ \ {c}]
    /\ IF st = "Success" THEN n' = n ELSE n.bad < MaxBad /\ Up("bad")
    /\ Say(<<Msg("GraphTaskResult", c, st, CASE st = "Success" -> "v:" \o GVal(c) [] st = "Failed" -> "x:e." \o c [] OTHER -> "")>>)
    /\ Label(<<"gresult", 0, IF st = "Undecodable" THEN "badret" ELSE st>>) /\ Same
Forget(f) ==
    /\ Room /\ n.forgets < MaxForgets /\ f \in sch.has /\ Up("forgets")
    /\ sch' = [sch EXCEPT !.has = @ \ {f}] /\ in' = in /\ Label(<<"forget", f>>) /\ Same

Internal ==
    \/ \E i \in T : Crit(i) \/ Raise(i) \/ Ret(i) \/ Wait(i) \/ Joined(i) \/ Disconnected(i)
    \/ ConnTop \/ ConnSend \/ ConnPoll \/ ConnExit
Next ==
    \/ Internal
    \/ \E i \in T, f \in Fn : Submit(i, f) \/ Get(i, f, TRUE) \/ Get(i, f, FALSE) \/ \E k \in 0..2 : Map(i, f, k)
    \/ \E i \in T : Disconnect(i) \/ \E x \in watched : Withdraw(i, x)
    \/ \E how \in {"SubmitOK", "NoWorker"} : Serve(how)
    \/ \E st \in {"Success", "Failed", "Undecodable"} : \E x \in sch.open : Result(x, st)
    \/ \E st \in {"Success", "Failed", "Undecodable"} : \E c \in sch.gopen : GResult(c, st)
    \/ \E f \in Fn : Forget(f)

Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(ConnTop) /\ WF_vars(ConnSend) /\ WF_vars(ConnPoll) /\ WF_vars(ConnExit)
                 /\ WF_vars(Serve("SubmitOK"))
                 /\ \A i \in T : WF_vars(Crit(i) \/ Raise(i) \/ Ret(i) \/ Wait(i) \/ Joined(i) \/ Disconnected(i))
                 /\ WF_vars(\E x \in sch.open : Result(x, "Success")) /\ WF_vars(\E c \in sch.gopen : GResult(c, "Success"))

View == <<s, th, q, stop, nr, fut, watched, conn, snap, in, sch, n, bad>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
NothingBad == bad = {}
\* at rest, whatever is unresolved is open at the scheduler
Rest == q = <<>> /\ in = <<>> /\ sch.todo = <<>> /\ conn \in {"poll", "over"} /\ (stop => conn = "over")
        /\ \A i \in T : th[i].pc \in {"idle", "wait"}
AtRest == Rest => \A x \in DOMAIN fut : Resolved(x) \/ x \in sch.open \/ \E c \in sch.gopen : FutOf(c, "n0") = x
JudgeAtRest == Rest /\ (\A i \in T : th[i].pc = "wait" =>
                          \E j \in DOMAIN th[i].subs : ~Resolved(th[i].subs[j])) => IdleFails(s) = {}
\* a future that has resolved never changes
Stable == [][\A x \in DOMAIN fut : Resolved(x) => fut'[x] = fut[x]]_vars
\* nothing the scheduler holds for a client that left stays there
Withdrawn == Rest /\ conn = "over" => \A x \in sch.open : s.sub[x].can \/ x \in s.wd
\* with a fair scheduler and fair threads every future is resolved in the end
Answered == <>[](\A x \in DOMAIN fut : Resolved(x))

Dump == IF LogLen > 0 /\ Len(log) >= LogLen THEN PrintT(<<"SCHED", ToJson(log)>>) ELSE TRUE
=============================================================================
