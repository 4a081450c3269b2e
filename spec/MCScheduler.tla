----------------------------- MODULE MCScheduler -----------------------------
(***************************************************************************)
(* Closed model: the scheduler of module Scheduler together with clients   *)
(* and workers.  Every allowed behaviour of the scheduler specification    *)
(* within the bounds is explored, and the properties are stated here over  *)
(* what peers see (the history h) or as plain state invariants, so they    *)
(* are independent of the rules they check.                                *)
(***************************************************************************)
EXTENDS Scheduler, Json

CONSTANTS NClients, NWorkers, NFns, Limit, MaxWait, WTO, FRET, LB, Trig,
          MaxTasks, MaxTicks, MaxCancels, MaxLosses, MaxGraphs, MaxFails, MaxLate, MaxFnOps,
          Shapes,        \* set of graph shapes: sequence of argument lists, an argument is an earlier node or 0 (data)
          Eager,         \* TRUE: owed outputs are emitted before the next stimulus (smaller state space)
          LogLen         \* simulation: dump a schedule of this many stimuli

Client == {"c" \o ToString(i) : i \in 1..NClients}
Worker == {"w" \o ToString(i) : i \in 1..NWorkers}
Fn == {"f" \o ToString(i) : i \in 1..NFns}

VARIABLES s, env, h, log
vars == <<s, env, h, log>>

Cfg == [limit |-> Limit, maxwait |-> MaxWait, wto |-> WTO, fret |-> FRET, lb |-> LB, trig |-> Trig]

Env0 == [n |-> 0, ng |-> 0, ticks |-> 0, cancels |-> 0, losses |-> 0, fails |-> 0, late |-> 0, fnops |-> 0,
         held |-> [w \in Worker |-> <<>>],   \* tasks a worker has and has not answered
         can |-> [w \in Worker |-> <<>>],    \* cancellations it has not answered
         bal |-> [w \in Worker |-> <<>>],    \* balance requests it has not answered
         up |-> {},                          \* workers that heartbeat
         owner |-> NoFun,                    \* task or graph -> client
         fnof |-> NoFun]

\* what peers saw: finals per task/graph, dispatches, acknowledgements
H0 == [fin |-> NoFun, disp |-> NoFun, ack |-> NoFun, res |-> NoFun, acked |-> {}, bad |-> {}]

Init == s = InitState(Cfg) /\ env = Env0 /\ h = H0 /\ log = <<>>

Ev(e, p, k, id, st, n, body, name) ==
    [e |-> e, p |-> p, k |-> k, id |-> id, st |-> st, n |-> n, body |-> body, name |-> name, xs |-> <<>>]
Recv(p, k, id, st, body) == Ev("recv", p, k, id, st, 0, body, "")

(***************************************************************************)
(* Steps of the scheduler                                                  *)
(***************************************************************************)
SendOf(m) == [e |-> "send", p |-> m.to, k |-> m.k, id |-> m.id, st |-> m.st, n |-> m.n, body |-> m.body,
              name |-> m.name, xs |-> m.xs]
TaskOf(t, w) == [e |-> "send", p |-> w, k |-> "Task", id |-> t, st |-> "", n |-> 0, body |-> "", name |-> "",
                 xs |-> <<>>, fn |-> s.tk[t].fn, args |-> s.tk[t].args]

Owed == {e \in {SendOf(m) : m \in DOMAIN s.obl} : Fails(s, e) = {}}
Optional == {e \in {SendOf(m) : m \in DOMAIN s.may} : Fails(s, e) = {}}
Dispatches == {e \in {TaskOf(t, w) : t \in Waiting(s), w \in DOMAIN s.wk} : Fails(s, e) = {}}

\* publications commute with everything: emit them at once
PubAll(x) == [x EXCEPT !.mon = NoFun, !.gpub = NoFun, !.may = NoFun]

Deliver(e) == \* the peer takes the message
    CASE e.k = "Task" -> [env EXCEPT !.held[e.p] = Append(@, e.id)]
      [] e.k = "TaskCancel" -> [env EXCEPT !.can[e.p] = Append(@, e.id)]
      [] e.k = "BalanceRequest" -> [env EXCEPT !.bal[e.p] = Append(@, e.n)]
      [] OTHER -> env

Note(e) ==
    CASE e.k = "TaskResult" \/ e.k = "GraphTaskResult" -> [h EXCEPT !.fin = Put(@, e.id, Append(IF Has(@, e.id) THEN @[e.id] ELSE <<>>, <<e.p, e.st, e.body, e.xs>>))]
      [] e.k = "Task" -> [h EXCEPT !.disp = Put(@, e.id, Append(IF Has(@, e.id) THEN @[e.id] ELSE <<>>, e.p)),
                                   !.bad = @ \cup (IF Has(h.fin, e.id) THEN {"dispatched after final"} ELSE {})
                                             \cup (IF \E i \in DOMAIN e.args : e.args[i][1] # "D" THEN {"unresolved argument"} ELSE {})
                                             \cup (IF Cardinality(TasksAt(s, e.p)) >= Limit THEN {"over limit"} ELSE {})]
      [] e.k = "TaskEcho" -> [h EXCEPT !.ack = Put(@, e.id, Append(IF Has(@, e.id) THEN @[e.id] ELSE <<>>, e.st))]
      [] OTHER -> h

Emit(e) == s' = PubAll(Apply(s, e)) /\ env' = Deliver(e) /\ h' = Note(e) /\ UNCHANGED log

SchedulerStep == \/ \E e \in Owed : Emit(e)
                 \/ \E e \in Dispatches : Emit(e)

(***************************************************************************)
(* Steps of the environment                                                *)
(***************************************************************************)
Quiet == Owed = {} /\ Dispatches = {}
Ready4 == ~Eager \/ Quiet
Label(x) == IF LogLen = 0 THEN log ELSE log \o <<IF Quiet THEN <<"settle">> ELSE <<"c", 1>>, x>>
Room == LogLen = 0 \/ Len(log) < LogLen
Do(ev, en, x) == /\ s' = PubAll(Apply(s, ev)) /\ env' = en /\ h' = h /\ log' = Label(x)

Known(t) == Has(s.tk, t) \/ Has(s.fin, t)

Upload(c, f, st) ==
    /\ env.fnops < MaxFnOps
    /\ Do(Ev("recv", c, "FunctionRequest", f, st, 0, "code_" \o f, "name_" \o f), [env EXCEPT !.fnops = @ + 1], <<"fn", c, f, st>>)

Fetch(w, f) ==
    /\ env.fnops < MaxFnOps
    /\ Do(Recv(w, "FunctionRequest", f, "Request", ""), [env EXCEPT !.fnops = @ + 1], <<"wfn", w, f>>)

Submit(c, f) ==
    /\ env.n < MaxTasks
    /\ LET t == "t" \o ToString(env.n + 1) IN
       Do([e |-> "recv", p |-> c, k |-> "Task", id |-> t, st |-> "", n |-> 0, body |-> "", name |-> "", xs |-> <<>>,
           fn |-> f, args |-> <<<<"D", t>>>>],
          [env EXCEPT !.n = @ + 1, !.owner = Put(@, t, c), !.fnof = Put(@, t, f)], <<"submit", c, f, 1>>)

SubmitGraph(c, shape, targets) ==
    /\ env.ng < MaxGraphs
    /\ LET g == "g" \o ToString(env.ng + 1)
           id(i) == g \o "." \o ToString(i)
           nodes == [i \in DOMAIN shape |->
                        <<id(i), "f1", [j \in DOMAIN shape[i] |-> IF shape[i][j] = 0 THEN <<"D", "lit">> ELSE <<"T", id(shape[i][j])>>]>>]
       IN  Do([e |-> "recv", p |-> c, k |-> "GraphTask", id |-> g, st |-> "", n |-> 0, body |-> "", name |-> "", xs |-> <<>>,
               functions |-> <<<<"f1", "name_f1", "code_f1">>>>, targets |-> [i \in DOMAIN targets |-> id(targets[i])], nodes |-> nodes],
              [env EXCEPT !.ng = @ + 1, !.owner = Put(@, g, c)],
              <<"graph", c, [i \in DOMAIN shape |-> [j \in DOMAIN shape[i] |-> shape[i][j]]], <<"f1">>, targets>>)

CancelTask(t) ==
    /\ env.cancels < MaxCancels
    /\ Do(Recv(env.owner[t], "TaskCancel", t, "", ""), [env EXCEPT !.cancels = @ + 1], <<"cancelname", t>>)

CancelGraph(g) ==
    /\ env.cancels < MaxCancels
    /\ Do(Recv(env.owner[g], "GraphTaskCancel", g, "", ""), [env EXCEPT !.cancels = @ + 1], <<"gcancelname", g>>)

Beat(w) ==
    /\ w \notin env.up
    /\ Do(Recv(w, "Heartbeat", "", "", ""), [env EXCEPT !.up = @ \cup {w}], <<"hb", w>>)

Drop1(q, i) == [j \in 1..(Len(q) - 1) |-> IF j < i THEN q[j] ELSE q[j + 1]]

Answer(w, i, st) ==
    /\ i \in DOMAIN env.held[w]
    /\ (st = "Failed" => env.fails < MaxFails)
    /\ LET t == env.held[w][i] IN
       Do(Recv(w, "TaskResult", t, st, st \o t),
          [env EXCEPT !.held[w] = Drop1(@, i), !.fails = @ + (IF st = "Failed" THEN 1 ELSE 0)], <<"result", w, i - 1, st>>)

AnswerCancel(w) ==
    /\ env.can[w] # <<>>
    /\ LET t == Head(env.can[w])
           has == t \in Range2(env.held[w])
       IN  Do(Recv(w, "TaskResult", t, IF has THEN "Canceled" ELSE "NotFound", ""),
              [env EXCEPT !.can[w] = Tail(@), !.held[w] = SelectSeq(@, LAMBDA x : x # t)], <<"ackcancel", w>>)

GiveBack(w) ==
    /\ env.bal[w] # <<>>
    /\ LET q == env.held[w]
           k == IF Len(q) <= 1 THEN 0 ELSE IF Head(env.bal[w]) < Len(q) - 1 THEN Head(env.bal[w]) ELSE Len(q) - 1
           give == SubSeq(q, 2, k + 1)
       IN  Do([e |-> "recv", p |-> w, k |-> "BalanceResponse", id |-> "", st |-> "", n |-> 0, body |-> "", name |-> "",
               xs |-> <<>>, ids |-> give],
              [env EXCEPT !.bal[w] = Tail(@), !.held[w] = SubSeq(q, 1, IF q = <<>> THEN 0 ELSE 1) \o SubSeq(q, k + 2, Len(q))], <<"giveback", w>>)

Late(w, t) == \* a repeated or stray answer
    /\ env.late < MaxLate
    /\ Do(Recv(w, "TaskResult", t, "Success", "late" \o t), [env EXCEPT !.late = @ + 1], <<"latename", w, t>>)

Silence(w) == \* the worker stops heartbeating; it may come back with its tasks, or empty
    /\ w \in env.up /\ env.losses < MaxLosses
    /\ s' = s /\ h' = h /\ env' = [env EXCEPT !.up = @ \ {w}, !.losses = @ + 1] /\ log' = Label(<<"mute", w>>)

Leave(w) ==
    /\ w \in env.up /\ env.losses < MaxLosses
    /\ Do(Recv(w, "DisconnectRequest", w, "", ""),
          [env EXCEPT !.up = @ \ {w}, !.losses = @ + 1, !.held[w] = <<>>, !.can[w] = <<>>, !.bal[w] = <<>>], <<"leave", w>>)

Tick == \* live workers heartbeat, then the checks run; only at an idle point, like the driver
    /\ Quiet /\ env.ticks < MaxTicks
    /\ LET beat(w, x) == [x EXCEPT !.wk = Put(@, w, x.now)]
           x == FoldSet(beat, s, env.up \cap DOMAIN s.wk)
           y == Apply(Apply(x, [e |-> "idle"]), [e |-> "adv", now |-> s.now + 10])
       IN  s' = PubAll([y EXCEPT !.pre = <<>>])
    /\ env' = [env EXCEPT !.ticks = @ + 1] /\ h' = h
    /\ log' = Label(<<"tick">>)

Targets == {<<1>>, <<2, 1>>}

EnvStep ==
    /\ Room /\ Ready4
    /\ \/ \E c \in Client, f \in Fn, st \in {"Add", "Delete"} : Upload(c, f, st)
       \/ \E w \in Worker, f \in Fn : Fetch(w, f)
       \/ \E c \in Client, f \in Fn : Submit(c, f)
       \/ \E c \in Client, sh \in Shapes : SubmitGraph(c, sh, <<Len(sh)>> \o (IF Len(sh) > 1 THEN <<1>> ELSE <<>>))
       \/ \E t \in DOMAIN env.owner : t \in DOMAIN env.fnof /\ CancelTask(t)
       \/ \E g \in DOMAIN env.owner : g \notin DOMAIN env.fnof /\ CancelGraph(g)
       \/ \E w \in Worker : Beat(w) \/ AnswerCancel(w) \/ GiveBack(w) \/ Silence(w) \/ Leave(w)
       \/ \E w \in Worker : \E i \in DOMAIN env.held[w] : \E st \in {"Success", "Failed"} : Answer(w, i, st)
       \/ \E w \in Worker : \E t \in DOMAIN env.fnof : Late(w, t)
       \/ Tick

Next == SchedulerStep \/ EnvStep
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(SchedulerStep)

\* counters that only statistics read are not part of the explored state
View == <<[s EXCEPT !.cnt = 0, !.snt = 0, !.rcv = 0, !.pre = 0,
                    !.fn = [f \in DOMAIN s.fn |-> [s.fn[f] EXCEPT !.last = s.now - @]],
                    !.wk = [w \in DOMAIN s.wk |-> s.now - s.wk[w]], !.now = 0], env, h, log>>

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
Quiescent == Quiet

\* C01: at most one final answer, to the submitter; at idle points exactly one for each finished submission
OneAnswer == \A t \in DOMAIN h.fin : /\ Len(h.fin[t]) = 1
                                     /\ Has(env.owner, t) => h.fin[t][1][1] = env.owner[t]
                                     /\ Has(env.owner, t)
AnsweredWhenDone == Quiescent => \A t \in DOMAIN s.fin : Has(env.owner, t) =>
                        \/ t \in DOMAIN h.fin
                        \/ t \notin DOMAIN env.fnof /\ s.fin[t] = "Canceled"  \* a cancelled graph gets no answer
\* the answer is what some worker reported for this very task, or canceled before it reached a worker
OwnAnswer == \A t \in DOMAIN h.fin : t \in DOMAIN env.fnof =>
                LET r == h.fin[t][1] IN r[3] \in {"", "Success" \o t, "Failed" \o t, "late" \o t}
\* C02: an accepted unfinished task waits or is at exactly one connected worker
OnePlace == \A t \in DOMAIN s.tk : s.tk[t].at = "" \/ s.tk[t].at \in DOMAIN s.wk
NoStranded == Quiescent => ~(HasFree(s) /\ Waiting(s) # {})
NothingBad == h.bad = {}
\* nothing the specification demands can become impossible: at every idle point nothing is owed
Dischargeable == Quiescent => IdleFails(s) = {}
\* C04
WithinLimit == \A w \in DOMAIN s.wk : Load(s, w) <= Limit
\* C07: exactly one acknowledgement per submission; refused ones leave no trace
OneAck == \A t \in DOMAIN h.ack : Len(h.ack[t]) = 1
RefusedNoTrace == \A t \in DOMAIN h.ack : t \in DOMAIN env.fnof /\ h.ack[t][1] # "SubmitOK" => ~Known(t) /\ ~Has(h.disp, t) /\ ~Has(h.fin, t)
AckBeforeAnswer == \A t \in DOMAIN h.fin : t \in DOMAIN env.fnof => Has(h.ack, t)
\* C09: functions in use are held
FnHeld == \A t \in DOMAIN s.tk : Has(s.fn, s.tk[t].fn)
FnHeld2 == \A g \in DOMAIN s.gr : \A n \in DOMAIN s.gr[g].nodes : s.gr[g].nodes[n].st = "idle" => Has(s.fn, s.gr[g].nodes[n].fn)
\* C10: what runs has its dependencies done, and nothing ready is withheld
DepsDone == \A g \in DOMAIN s.gr : \A n \in DOMAIN s.gr[g].nodes :
               s.gr[g].nodes[n].st # "idle" => \A d \in Deps(s.gr[g].nodes[n]) : s.gr[g].nodes[d].st = "done"
NotWithheld == \A g \in DOMAIN s.gr : \A n \in DOMAIN s.gr[g].nodes : ~Ready(s.gr[g], n)
NoUnsubst == \A t \in DOMAIN s.tk : \A i \in DOMAIN s.tk[t].args : s.tk[t].args[i][1] = "D"
\* C11: an unfinished graph has a node under way; of a finished one only orphans at workers remain
GraphAlive == \A g \in DOMAIN s.gr : \E n \in DOMAIN s.gr[g].nodes : s.gr[g].nodes[n].st = "run" /\ Has(s.tk, n)
NothingLeft == \A t \in DOMAIN s.tk : s.tk[t].g # "" /\ ~Has(s.gr, s.tk[t].g) => s.tk[t].orphan

\* action property: dispatch goes to a least loaded worker (C05), tasks only change place for a reason (C03/C06)
Moves == [][\A t \in DOMAIN s.tk \cap DOMAIN s'.tk :
              s.tk[t].at # s'.tk[t].at =>
                 \/ s.tk[t].at = "" /\ \A v \in DOMAIN s.wk : Load(s, s'.tk[t].at) <= Load(s, v)
                 \/ s'.tk[t].at = "" /\ (\/ s.tk[t].at \notin DOMAIN s'.wk
                                       \/ \E w \in Worker : Len(env'.bal[w]) < Len(env.bal[w]))]_vars

\* liveness (FairSpec, small bounds): a waiting task does not wait forever while a slot is free
EventuallySent == [](HasFree(s) /\ Waiting(s) # {} => <>(~HasFree(s) \/ Waiting(s) = {}))

Dump == (LogLen > 0 /\ Len(log) >= LogLen) => PrintT(<<"SCHED", ToJson(log)>>)

NoMax == -1
NoShapes == {}
Chain == {<<<<0>>, <<1>>>>}
Diamond == {<<<<0>>, <<1>>, <<1, 1>>, <<2, 3, 2>>>>}
Fork == {<<<<>>, <<1, 0>>, <<1>>>>}
SomeShapes == {<<<<0>>, <<1>>>>, <<<<0>>, <<1>>, <<1, 1>>, <<2, 3, 2>>>>, <<<<>>, <<0>>, <<1, 2>>>>, <<<<>>, <<1>>, <<1>>, <<>>>>}
=============================================================================
