------------------------------ MODULE Scheduler ------------------------------
(***************************************************************************)
(* The scheduler of scaled as a state machine over the messages it         *)
(* exchanges with clients, workers and the monitor.                        *)
(*                                                                         *)
(* The state is one record `s` and every step of the system is one event:  *)
(*   recv  the scheduler takes a message from a peer                       *)
(*   send  the scheduler hands a message to a peer                         *)
(*   pub   the scheduler publishes a change on the monitoring stream       *)
(*   stat  the scheduler publishes a status report                         *)
(*   adv   a second passes (periodic checks run)                           *)
(*   idle  nothing more happens without outside stimulus                   *)
(*   died  the scheduler stopped                                           *)
(*   held  how much data the scheduler holds was measured                  *)
(* Fails(s, e) is the set of names of the rules that event e breaks in s   *)
(* (empty iff e is an allowed step) and Apply(s, e) is the state after e.  *)
(* The closed model (MCScheduler) explores all allowed events of bounded   *)
(* systems; TraceScheduler evaluates the same operators on the events      *)
(* recorded from the real scheduler.                                       *)
(*                                                                         *)
(* Outputs the scheduler owes are kept in a bag `obl` (must appear before  *)
(* the next idle point), outputs it may but need not send in a bag `may`.  *)
(* Which waiting task goes to which least loaded worker, and when, is left *)
(* open.  Time is counted in tenths of a second.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Held

NoFun == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f
BagAdd(b, m) == IF m \in DOMAIN b THEN [b EXCEPT ![m] = @ + 1] ELSE Put(b, m, 1)
BagRem(b, m) == IF b[m] = 1 THEN Del(b, m) ELSE [b EXCEPT ![m] = @ - 1]
Count(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Range2(q) == {q[i] : i \in DOMAIN q}
SumF(f) == FoldSet(LAMBDA x, acc : acc + f[x], 0, DOMAIN f)

(***************************************************************************)
(* Messages                                                                *)
(***************************************************************************)
Msg(to, k, id, st, n, body, name, xs) ==
    [to |-> to, k |-> k, id |-> id, st |-> st, n |-> n, body |-> body, name |-> name, xs |-> xs]
FnRes(to, id, st, name, body) == Msg(to, "FunctionResponse", id, st, 0, body, name, <<>>)
Echo(to, id, st) == Msg(to, "TaskEcho", id, st, 0, "", "", <<>>)
Res(to, id, st, dur, body) == Msg(to, "TaskResult", id, st, dur, body, "", <<>>)
GRes(to, id, st, rs) == Msg(to, "GraphTaskResult", id, st, 0, "", "", rs)
HbEcho(to) == Msg(to, "HeartbeatEcho", "", "", 0, "", "", <<>>)
BalReq(to, n) == Msg(to, "BalanceRequest", "", "", n, "", "", <<>>)
CancelMsg(to, id) == Msg(to, "TaskCancel", id, "", 0, "", "", <<>>)
DelFn(to, id) == Msg(to, "FunctionRequest", id, "Delete", 0, "", "", <<>>)
DiscRes(to, id) == Msg(to, "DisconnectResponse", id, "", 0, "", "", <<>>)

(***************************************************************************)
(* State                                                                   *)
(*  fn   function id -> name, content, time of last upload or use          *)
(*  wk   connected worker -> time of last heartbeat                        *)
(*  wi   worker -> what its last heartbeat said                            *)
(*  stAt when a status report was published last                           *)
(*  tk   accepted unfinished task -> owner, function, arguments, where it  *)
(*       is ("" = waiting, else the worker), its graph, why it waits,      *)
(*       whether its cancellation was sent to that worker                  *)
(*  gr   unfinished graph -> owner, targets, nodes                         *)
(*  fin  finished task or graph -> outcome; dropped graph nodes            *)
(*  mon  task -> state changes not yet published                           *)
(***************************************************************************)
InitState(cfg) ==
    [cfg |-> cfg, now |-> 0, fn |-> NoFun, wk |-> NoFun, tk |-> NoFun, gr |-> NoFun, fin |-> NoFun,
     cnt |-> [Success |-> 0, Failed |-> 0, Canceled |-> 0, NotFound |-> 0],
     obl |-> NoFun, may |-> NoFun, mon |-> NoFun, gpub |-> NoFun,
     adv |-> NoFun, advn |-> 1, snt |-> NoFun, rcv |-> NoFun, pre |-> <<>>, kept |-> NoFun,
     wi |-> NoFun, stAt |-> 0]

Owe(s, m) == [s EXCEPT !.obl = BagAdd(@, m)]
May(s, m) == [s EXCEPT !.may = BagAdd(@, m)]

TasksAt(s, w) == {t \in DOMAIN s.tk : s.tk[t].at = w}
Load(s, w) == Cardinality(TasksAt(s, w))
Waiting(s) == {t \in DOMAIN s.tk : s.tk[t].at = ""}
HasFree(s) == \E w \in DOMAIN s.wk : Load(s, w) < s.cfg.limit
FnName(s, f) == IF Has(s.fn, f) THEN s.fn[f].name ELSE "?"
FnUsers(s, f) == {t \in DOMAIN s.tk : s.tk[t].fn = f}
                 \cup UNION {{n \in DOMAIN s.gr[g].nodes : s.gr[g].nodes[n].st = "idle" /\ s.gr[g].nodes[n].fn = f}
                             : g \in DOMAIN s.gr}

Publish(s, t, st) == \* t is still in s.tk
    LET q == IF Has(s.mon, t) THEN s.mon[t] ELSE <<>>
    IN  [s EXCEPT !.mon = Put(@, t, Append(q, <<FnName(s, s.tk[t].fn), st>>))]

TouchFn(s, f) == IF Has(s.fn, f) THEN [s EXCEPT !.fn[f].last = s.now] ELSE s

AddTask(s, t, c, f, args, g, why) ==
    LET s1 == [TouchFn(s, f) EXCEPT !.tk = Put(@, t, [c |-> c, fn |-> f, args |-> args, at |-> "", g |-> g,
                                                      orphan |-> FALSE, can |-> FALSE, why |-> why])]
    IN  Publish(s1, t, "Inactive")

(***************************************************************************)
(* Finishing tasks and graphs                                              *)
(***************************************************************************)
Drop(s, t, st) == \* the task leaves the scheduler with outcome st
    LET s1 == Publish(s, t, st)
    IN  [s1 EXCEPT !.tk = Del(@, t), !.fin = Put(@, t, st), !.cnt[st] = @ + 1]

Deps(node) == {node.args[i][2] : i \in {j \in DOMAIN node.args : node.args[j][1] = "T"}}
Ready(gr, n) == gr.nodes[n].st = "idle" /\ \A d \in Deps(gr.nodes[n]) : gr.nodes[d].st = "done"
Subst(gr, args) == [i \in DOMAIN args |-> IF args[i][1] = "T" THEN <<"D", gr.nodes[args[i][2]].res>> ELSE args[i]]

EndGraph(s, g, how) ==
    LET idle == {n \in DOMAIN s.gr[g].nodes : s.gr[g].nodes[n].st = "idle"}
    IN  [s EXCEPT !.gr = Del(@, g),
                  !.fin = [x \in DOMAIN @ \cup idle \cup {g} |->
                              IF x = g THEN how ELSE IF x \in idle THEN "dropped" ELSE @[x]]]

Advance(s, g) == \* start what is ready, or report the graph done
    LET gr == s.gr[g]
        ready == {n \in DOMAIN gr.nodes : Ready(gr, n)}
        start(n, x) ==
            LET y == [x EXCEPT !.gr[g].nodes[n].st = "run"]
                z == AddTask(y, n, gr.c, gr.nodes[n].fn, Subst(gr, gr.nodes[n].args), g, "graph")
            IN  May(z, Echo(gr.c, n, "SubmitOK"))
    IN  IF \A n \in DOMAIN gr.nodes : gr.nodes[n].st = "done"
        THEN Owe(EndGraph(s, g, "Success"),
                 GRes(gr.c, g, "Success", [i \in DOMAIN gr.targets |-> gr.nodes[gr.targets[i]].res]))
        ELSE FoldSet(start, s, ready)

Withdraw(t, x) == \* a running node of a torn down graph
    LET k == x.tk[t] IN
    IF k.at = "" THEN May(Drop(x, t, "Canceled"), Res(k.c, t, "Canceled", 0, ""))
    ELSE Owe([Publish(x, t, "Canceling") EXCEPT !.tk[t].orphan = TRUE, !.tk[t].can = TRUE], CancelMsg(k.at, t))

Teardown(s, g, how) ==
    LET run == {n \in DOMAIN s.gr[g].nodes : s.gr[g].nodes[n].st = "run" /\ Has(s.tk, n)}
    IN  FoldSet(Withdraw, EndGraph(s, g, how), run)

Finish(s, t, st, dur, body) ==
    LET k == s.tk[t]
        s1 == Drop(s, t, st)
    IN  IF k.orphan THEN May(s1, Res(k.c, t, st, dur, body))
        ELSE IF k.g = "" THEN Owe(s1, Res(k.c, t, st, dur, body))
        ELSE IF st = "Success"
             THEN Advance([s1 EXCEPT !.gr[k.g].nodes[t].st = "done", !.gr[k.g].nodes[t].res = body], k.g)
             ELSE Owe(Teardown([s1 EXCEPT !.gr[k.g].nodes[t].st = "done"], k.g, st),
                      GRes(s.gr[k.g].c, k.g, st, <<body>>))

Reroute(s, t, why) == \* a task whose cancellation was on its way to the worker is not given to another one
    IF s.tk[t].can THEN Finish(s, t, "Canceled", 0, "")
    ELSE Publish([s EXCEPT !.tk[t].at = "", !.tk[t].why = why], t, "Inactive")

LoseWorker(s, w, why) ==
    LET s1 == FoldSet(LAMBDA t, x : Reroute(x, t, why), s, TasksAt(s, w))
    IN  [s1 EXCEPT !.wk = Del(@, w)]

(***************************************************************************)
(* Messages the scheduler receives                                         *)
(***************************************************************************)
AddFunction(s, f, name, body) ==
    IF Has(s.fn, f) THEN [s EXCEPT !.fn[f].last = s.now]
    ELSE [s EXCEPT !.fn = Put(@, f, [name |-> name, body |-> body, last |-> s.now])]

OnFunctionRequest(s, e) ==
    LET here == Has(s.fn, e.id) IN
    CASE e.st = "Check" -> Owe(s, FnRes(e.p, e.id, IF here THEN "OK" ELSE "NotExists", "", ""))
      [] e.st = "Add" -> Owe(AddFunction(s, e.id, e.name, e.body),
                             FnRes(e.p, e.id, IF here THEN "Duplicated" ELSE "OK", "", ""))
      [] e.st = "Request" -> Owe(s, IF here THEN FnRes(e.p, e.id, "OK", s.fn[e.id].name, s.fn[e.id].body)
                                    ELSE FnRes(e.p, e.id, "NotExists", "", ""))
      [] e.st = "Delete" ->
            IF ~here THEN Owe(s, FnRes(e.p, e.id, "NotExists", "", ""))
            ELSE IF FnUsers(s, e.id) # {} THEN Owe(s, FnRes(e.p, e.id, "StillHaveTask", "", ""))
            ELSE FoldSet(LAMBDA w, x : May(x, DelFn(w, e.id)),
                         Owe([s EXCEPT !.fn = Del(@, e.id)], FnRes(e.p, e.id, "OK", "", "")), DOMAIN s.wk)

OnTask(s, e) ==
    CASE ~Has(s.fn, e.fn) -> Owe(s, Echo(e.p, e.id, "FunctionNotExists"))
      [] Has(s.fn, e.fn) /\ ~HasFree(s) /\ s.cfg.maxwait >= 0 /\ Cardinality(Waiting(s)) >= s.cfg.maxwait ->
            Owe(s, Echo(e.p, e.id, "NoWorker"))
      [] OTHER -> AddTask(Owe(s, Echo(e.p, e.id, "SubmitOK")), e.id, e.p, e.fn, e.args, "", "new")

OnTaskCancel(s, e) ==
    CASE ~Has(s.tk, e.id) -> s
      [] Has(s.tk, e.id) /\ s.tk[e.id].at = "" -> Finish(s, e.id, "Canceled", 0, "")
      [] OTHER -> Owe([Publish(s, e.id, "Canceling") EXCEPT !.tk[e.id].can = TRUE], CancelMsg(s.tk[e.id].at, e.id))

OnTaskResult(s, e) ==
    IF Has(s.tk, e.id) /\ s.tk[e.id].at # "" THEN Finish(s, e.id, e.st, e.n, e.body) ELSE s

OnHeartbeat(s, e) ==
    Owe([s EXCEPT !.wk = Put(@, e.p, s.now), !.wi = IF Has(e, "info") THEN Put(@, e.p, e.info) ELSE @], HbEcho(e.p))

OnBalanceResponse(s, e) ==
    FoldLeft(LAMBDA x, t : IF Has(x.tk, t) /\ x.tk[t].at # "" THEN Reroute(x, t, "balance") ELSE x, s, e.ids)

OnDisconnect(s, e) ==
    IF Has(s.wk, e.id) THEN Owe(LoseWorker(s, e.id, "leave"), DiscRes(e.p, e.id)) ELSE s

OnGraphTask(s, e) ==
    LET fs == e.functions
        s1 == FoldLeft(LAMBDA x, f : May(AddFunction(x, f[1], f[2], f[3]),
                                         FnRes(e.p, f[1], IF Has(x.fn, f[1]) THEN "Duplicated" ELSE "OK", "", "")),
                       s, fs)
        ids == {e.nodes[i][1] : i \in DOMAIN e.nodes}
        nodes == [n \in ids |-> LET i == CHOOSE j \in DOMAIN e.nodes : e.nodes[j][1] = n
                                IN  [fn |-> e.nodes[i][2], args |-> e.nodes[i][3], st |-> "idle", res |-> ""]]
        s2 == FoldSet(LAMBDA n, x : TouchFn(x, nodes[n].fn), s1, ids)
        s3 == [s2 EXCEPT !.gr = Put(@, e.id, [c |-> e.p, targets |-> e.targets, nodes |-> nodes]),
                         !.gpub = FoldSet(LAMBDA n, b :
                              BagAdd(b, [g |-> e.id, id |-> n,
                                         st |-> IF n \in Range2(e.targets) THEN "Target" ELSE "Normal",
                                         parents |-> Deps(nodes[n])]), @, ids)]
    IN  Advance(s3, e.id)

OnGraphCancel(s, e) == IF Has(s.gr, e.id) THEN Teardown(s, e.id, "Canceled") ELSE s

OnRecv(s0, e) ==
    LET s == [s0 EXCEPT !.rcv = Put(@, e.k, Count(@, e.k) + 1)] IN
    CASE e.k = "FunctionRequest" -> OnFunctionRequest(s, e)
      [] e.k = "Task" -> OnTask(s, e)
      [] e.k = "TaskCancel" -> OnTaskCancel(s, e)
      [] e.k = "TaskResult" -> OnTaskResult(s, e)
      [] e.k = "Heartbeat" -> OnHeartbeat(s, e)
      [] e.k = "BalanceResponse" -> OnBalanceResponse(s, e)
      [] e.k = "DisconnectRequest" -> OnDisconnect(s, e)
      [] e.k = "GraphTask" -> OnGraphTask(s, e)
      [] e.k = "GraphTaskCancel" -> OnGraphCancel(s, e)
      [] OTHER -> s  \* any other message type is counted and ignored

(***************************************************************************)
(* The periodic checks: balance, silent workers, idle functions            *)
(***************************************************************************)
Advice(s) ==
    LET W == DOMAIN s.wk
        ld == [w \in W |-> Load(s, w)]
        total == SumF(ld)
        n == Cardinality(W)
        over == {w \in W : ld[w] * n > total}
    IN  IF n = 0 \/ total = 0 \/ \A w \in W : ld[w] > 0 THEN NoFun
        ELSE [w \in over |-> ld[w] - (total \div n)]

Balance(s) ==
    IF ~s.cfg.lb THEN s
    ELSE LET a == Advice(s)
             c == IF a = s.adv THEN s.advn + 1 ELSE 1
             s1 == [s EXCEPT !.adv = a, !.advn = c]
         IN  IF c = s.cfg.trig THEN FoldSet(LAMBDA w, x : Owe(x, BalReq(w, a[w])), s1, DOMAIN a) ELSE s1

CleanWorkers(s) ==
    FoldSet(LAMBDA w, x : LoseWorker(x, w, "silent"), s, {w \in DOMAIN s.wk : s.now - s.wk[w] > s.cfg.wto})

CleanFunctions(s, alive) ==
    LET old == {f \in DOMAIN s.fn : s.now - s.fn[f].last > s.cfg.fret /\ FnUsers(s, f) = {}}
        told(f, x) == FoldSet(LAMBDA w, y : IF w \in alive THEN Owe(y, DelFn(w, f)) ELSE May(y, DelFn(w, f)),
                              x, DOMAIN s.wk)
    IN  [FoldSet(told, s, old) EXCEPT !.fn = [f \in DOMAIN @ \ old |-> @[f]]]

Sweep(s0, now) ==
    LET s == [s0 EXCEPT !.now = now]
        alive == {w \in DOMAIN s.wk : s.now - s.wk[w] <= s.cfg.wto}
        s1 == CleanWorkers(CleanFunctions(Balance(s), alive))
    IN  [s1 EXCEPT !.pre = <<[s0 EXCEPT !.pre = <<>>]>>]

(***************************************************************************)
(* What the scheduler does                                                 *)
(***************************************************************************)
IsDispatch(e) == e.k = "Task"

DispatchFails(s, e) ==
    LET w == e.p IN LET t == e.id IN
    UNION {
        IF Has(s.tk, t) /\ s.tk[t].at = "" THEN {}
        ELSE IF Has(s.tk, t) THEN {"task.notwaiting"}
        ELSE IF Has(s.fin, t) THEN IF s.fin[t] = "Canceled" THEN {"task.canceled"}
                                   ELSE IF s.fin[t] = "dropped" THEN {"task.aftergraph"} ELSE {"task.finished"}
        ELSE IF \E g \in DOMAIN s.gr : t \in DOMAIN s.gr[g].nodes THEN {"task.early"}
        ELSE {"task.unknown"},
        IF Has(s.wk, w) THEN {} ELSE {"task.deadworker"},
        IF Has(s.wk, w) /\ Load(s, w) >= s.cfg.limit THEN {"task.overlimit"} ELSE {},
        IF Has(s.wk, w) /\ \E v \in DOMAIN s.wk : Load(s, v) < Load(s, w) THEN {"task.notleast"} ELSE {},
        IF Has(s.tk, t) /\ (s.tk[t].fn # e.fn \/ s.tk[t].args # e.args)
        THEN {IF s.tk[t].g = "" THEN "task.body" ELSE "task.nodebody"} ELSE {} }

OutMsg(e) == Msg(e.p, e.k, e.id, e.st, e.n, e.body, e.name, e.xs)

Same(m, o) == m.k = o.k /\ m.id = o.id  \* an output of the right kind about the right thing

OutFails(s, e) ==
    LET m == OutMsg(e)
        all == DOMAIN s.obl \cup DOMAIN s.may
        echo == Echo(e.p, e.id, "SubmitOK")
    IN  IF m \in all
        THEN IF e.k = "TaskResult" /\ m \in DOMAIN s.obl /\ Has(s.obl, echo) THEN {"result.beforeecho"} ELSE {}
        ELSE IF \E o \in all : Same(m, o) /\ o.to = m.to THEN {"wrong." \o e.k}
        ELSE IF \E o \in all : Same(m, o) THEN {"misdirected." \o e.k}
        ELSE IF e.k \in {"TaskResult", "GraphTaskResult"} /\ Has(s.fin, e.id) THEN {"repeated." \o e.k}
        ELSE {"unexpected." \o e.k}

Counted(s, e) == [s EXCEPT !.snt = Put(@, e.k, Count(@, e.k) + 1)]

OnSend(s0, e) ==
    LET s == Counted(s0, e) IN
    IF IsDispatch(e) THEN Publish([s EXCEPT !.tk[e.id].at = e.p], e.id, "Running")
    ELSE LET m == OutMsg(e)
         IN  IF m \in DOMAIN s.obl THEN [s EXCEPT !.obl = BagRem(@, m)] ELSE [s EXCEPT !.may = BagRem(@, m)]

PubFails(s, e) ==
    IF e.k = "GraphTaskState"
    THEN IF [g |-> e.g, id |-> e.id, st |-> e.st, parents |-> Range2(e.xs)] \in DOMAIN s.gpub THEN {} ELSE {"pub.graph"}
    ELSE IF Has(s.mon, e.id) /\ s.mon[e.id] # <<>> /\ Head(s.mon[e.id]) = <<e.name, e.st>> THEN {} ELSE {"pub.task"}

OnPub(s, e) ==
    IF e.k = "GraphTaskState"
    THEN [s EXCEPT !.gpub = BagRem(@, [g |-> e.g, id |-> e.id, st |-> e.st, parents |-> Range2(e.xs)])]
    ELSE [s EXCEPT !.mon = IF Len(@[e.id]) = 1 THEN Del(@, e.id) ELSE Put(@, e.id, Tail(@[e.id]))]

(***************************************************************************)
(* Status reports                                                          *)
(***************************************************************************)
Pairs(q) == {q[i] : i \in DOMAIN q}
ClientCount(s, c) == Cardinality({t \in DOMAIN s.tk : s.tk[t].c = c}) + Cardinality({g \in DOMAIN s.gr : s.gr[g].c = c})
Clients(s) == {s.tk[t].c : t \in DOMAIN s.tk} \cup {s.gr[g].c : g \in DOMAIN s.gr}
NameCount(s, n) == FoldSet(LAMBDA f, acc : acc + Cardinality(FnUsers(s, f)), 0, {f \in DOMAIN s.fn : s.fn[f].name = n})
StatTasks(s) == <<Cardinality(Waiting(s)), Cardinality(DOMAIN s.tk) - Cardinality(Waiting(s)),
                  s.cnt.Success, s.cnt.Failed, s.cnt.Canceled, s.cnt.NotFound>>
StatClients(s) == {<<c, ClientCount(s, c)>> : c \in Clients(s)}
StatFuncs(s) == {p \in {<<s.fn[f].name, NameCount(s, s.fn[f].name)>> : f \in DOMAIN s.fn} : p[2] > 0}
StatWorkers(s) == {<<w, s.cfg.limit - Load(s, w), Load(s, w)>> : w \in DOMAIN s.wk}
StatTypes(f) == {<<k, f[k]>> : k \in DOMAIN f}
\* what is shown of a worker: when it was last heard of (in whole seconds), and what it said then
About(s, v, x) == /\ Has(v.wk, x[1]) /\ Has(v.wi, x[1])
                  /\ x[2] - (s.now - v.wk[x[1]]) \in -10..10
                  /\ v.wi[x[1]] = x[3]
Zero(q) == {p \in Pairs(q) : p[2] # 0}

StatFails(s, e) ==
    LET views == {s} \cup Pairs(s.pre) IN
    UNION {
        IF \E v \in views : StatTasks(v) = e.tasks THEN {} ELSE {"status.tasks"},
        IF \E v \in views : StatClients(v) = Zero(e.clients) THEN {} ELSE {"status.clients"},
        IF \E v \in views : StatFuncs(v) = Zero(e.funcs) THEN {} ELSE {"status.functions"},
        IF \E v \in views : StatWorkers(v) = Pairs(e.workers) THEN {} ELSE {"status.workers"},
        IF \A x \in Pairs(e.about) : \E v \in views : About(s, v, x) THEN {} ELSE {"status.about"},
        IF StatTypes(s.rcv) = Zero(e.received) THEN {} ELSE {"status.received"},
        IF StatTypes(s.snt) = Zero(e.sent) THEN {} ELSE {"status.sent"} }

(***************************************************************************)
(* Idle points: everything owed was delivered, nothing is left stranded    *)
(***************************************************************************)
IdleFails(s) ==
    {"missing." \o m.k : m \in DOMAIN s.obl}
    \cup {"pub.missing" : t \in DOMAIN s.mon} \cup {"pub.missing" : t \in DOMAIN s.gpub}
    \cup (IF HasFree(s) THEN {"stranded." \o s.tk[t].why : t \in Waiting(s)} ELSE {})

(***************************************************************************)
(* Nothing of finished work remains: the state is a matter of the peers    *)
(***************************************************************************)
Settled(s) == DOMAIN s.tk = {} /\ DOMAIN s.gr = {} /\ DOMAIN s.obl = {}
RestKey(s) == <<Cardinality(DOMAIN s.wk), Cardinality(DOMAIN s.fn)>>

(***************************************************************************)
(* Events                                                                  *)
(***************************************************************************)
Fails(s, e) ==
    CASE e.e = "recv" -> {}
      [] e.e = "send" -> IF IsDispatch(e) THEN DispatchFails(s, e) ELSE OutFails(s, e)
      [] e.e = "pub" -> PubFails(s, e)
      [] e.e = "stat" -> StatFails(s, e)
      [] e.e = "adv" -> {}
      [] e.e = "clock" -> {}
      [] e.e = "idle" -> IdleFails(s)
      [] e.e = "died" -> {"died"}
      [] e.e = "held" -> IF Settled(s) THEN HeldFails(s.kept, "", RestKey(s), e.n) ELSE {}
      [] e.e = "bad" -> {"garbled"}  \* an output that is no message of the protocol
      [] OTHER -> {"?event"}

Apply(s, e) ==
    CASE e.e = "recv" -> OnRecv(s, e)
      [] e.e = "send" -> OnSend(s, e)
      [] e.e = "pub" -> OnPub(s, e)
      [] e.e = "adv" -> Sweep(s, e.now)
      [] e.e = "clock" -> [s EXCEPT !.now = e.now]
      [] e.e = "idle" -> [s EXCEPT !.may = NoFun, !.pre = <<>>]
      [] e.e = "stat" -> [s EXCEPT !.stAt = s.now]
      [] e.e = "held" -> IF Settled(s) THEN [s EXCEPT !.kept = Noted(@, "", RestKey(s), e.n), !.fin = NoFun] ELSE s
      [] OTHER -> s
=============================================================================
