------------------------------ MODULE MCWorker ------------------------------
(***************************************************************************)
(* Closed model of one worker at the level of its two processes: an agent  *)
(* with a queue and at most one current task, a processor with a cache of  *)
(* functions, the two pipes between them, and a scheduler that delivers,   *)
(* cancels, takes back, forgets and redelivers tasks and answers fetches.  *)
(* Every step reports the events it makes visible to module Worker, which  *)
(* judges them like a recording of the real worker: `bad` stays empty iff  *)
(* the protocol between agent and processor implements Worker.             *)
(* The history `h` states what matters independently of those rules.       *)
(***************************************************************************)
EXTENDS Worker, Json

CONSTANTS NFns, MaxTasks, MaxCancels, MaxBalances, MaxDeletes, MaxExpires, MaxForgets, MaxRedeliver, MaxBad, MaxStray, MaxDies,
          LogLen
Fn == {"f" \o ToString(i) : i \in 1..NFns}

VARIABLES s, bad,      \* the judge
          q, cur, ini, \* agent: queue, current task, processor announced itself
          pst, pt, cache, dn, up,  \* processor: state, task, cache; pipes
          in, sch,     \* messages on their way to the agent; the scheduler
          h, log
vars == <<s, bad, q, cur, ini, pst, pt, cache, dn, up, in, sch, h, log>>
agent == <<q, cur, ini>>
proc == <<pst, pt, cache>>

Ev(e, k, id) == [e |-> e, k |-> k, id |-> id, st |-> "", n |-> 0, body |-> "", fn |-> "", args |-> <<>>, ids |-> <<>>]
Spec0 == [hb |-> 10000, death |-> 100000, fret |-> 20]

Init ==
    /\ s = InitState(Spec0) /\ bad = {}
    /\ q = <<>> /\ cur = "" /\ ini = FALSE
    /\ pst = "new" /\ pt = "" /\ cache = {} /\ dn = <<>> /\ up = <<[k |-> "ready", id |-> ""]>>
    /\ in = <<>>
    /\ sch = [n |-> 0, fn |-> NoFun, bad |-> {}, known |-> {}, lost |-> {}, gone |-> {}, fetch |-> <<>>, cancels |-> 0,
              bals |-> 0, dels |-> 0, exps |-> 0, forgets |-> 0, red |-> 0, stray |-> 0, dies |-> 0]
    /\ h = [deliv |-> NoFun, fin |-> NoFun, ret |-> NoFun, runs |-> NoFun]
    /\ log = <<>>

\* several events one after the other
RECURSIVE Judge(_, _, _)
Judge(x, b, es) == IF es = <<>> THEN <<x, b>>
                   ELSE Judge(Apply(x, Head(es)), b \cup Fails(x, Head(es)), Tail(es))
Seen(es) == LET r == Judge(s, bad, es) IN s' = r[1] /\ bad' = r[2]

Up1(f, k) == Put(f, k, Cnt(f, k) + 1)
Final(t) == h' = [h EXCEPT !.fin = Up1(@, t)]

(***************************************************************************)
(* The scheduler                                                           *)
(***************************************************************************)
Busy == \* something inside the worker can still happen without outside stimulus
    \/ in # <<>>
    \/ up # <<>>
    \/ (dn # <<>> /\ pst # "run")
    \/ pst = "dead"
    \/ (cur = "" /\ ini /\ q # <<>>)
Label(x) == log' = IF LogLen = 0 THEN log ELSE log \o <<IF Busy THEN <<"c", 1>> ELSE <<"settle">>, x>>
Room == LogLen = 0 \/ Len(log) < LogLen

Msg(k, id) == [k |-> k, id |-> id, st |-> "", n |-> 0]
Tell(m) == in' = Append(in, m)
Same == UNCHANGED <<s, bad, agent, proc, dn, up, h>>

NewTask(f, b) ==
    /\ sch.n < MaxTasks /\ (b => Cardinality(sch.bad) < MaxBad)
    /\ LET t == "t" \o ToString(sch.n + 1) IN
       /\ sch' = [sch EXCEPT !.n = @ + 1, !.fn = Put(@, t, f), !.bad = IF b THEN @ \cup {t} ELSE @, !.known = @ \cup {t},
                             !.gone = @ \ {f}]
       /\ Tell(Msg("Task", t))
    /\ Label(<<"task", f, 1, b>>) /\ Same

Redeliver(t) == \* it thought the worker lost, or got the task back, and the worker it picks is this one
    /\ sch.red < MaxRedeliver /\ t \in sch.lost
    /\ sch' = [sch EXCEPT !.red = @ + 1, !.known = @ \cup {t}, !.lost = @ \ {t}, !.gone = @ \ {sch.fn[t]}]
    /\ Tell(Msg("Task", t)) /\ Label(<<"redelivername", t>>) /\ Same

Cancel(t) ==
    /\ sch.cancels < MaxCancels
    /\ sch' = [sch EXCEPT !.cancels = @ + 1] /\ Tell(Msg("TaskCancel", t)) /\ Label(<<"cancelname", t>>) /\ Same

Balance(n) ==
    /\ sch.bals < MaxBalances
    /\ sch' = [sch EXCEPT !.bals = @ + 1] /\ Tell([Msg("BalanceRequest", "") EXCEPT !.n = n])
    /\ Label(<<"balance", n>>) /\ Same

Delete(f) ==
    /\ sch.dels < MaxDeletes
    /\ sch' = [sch EXCEPT !.dels = @ + 1] /\ Tell(Msg("Delete", f)) /\ Label(<<"delete", f>>) /\ Same

Forget == \* the scheduler believes the worker lost: its tasks are run elsewhere
    /\ sch.forgets < MaxForgets /\ sch.known # {}
    /\ sch' = [sch EXCEPT !.forgets = @ + 1, !.lost = @ \cup sch.known, !.known = {}]
    /\ Label(<<"forget">>) /\ Same /\ UNCHANGED in

Drop(f) == \* and functions nobody needs are discarded
    /\ f \notin sch.gone /\ \E t \in sch.lost : sch.fn[t] = f /\ \A t2 \in sch.known : sch.fn[t2] # f
    /\ sch' = [sch EXCEPT !.gone = @ \cup {f}] /\ Label(<<"drop", f>>) /\ Same /\ UNCHANGED in

Resp(f, extra) == [k |-> "FunctionResponse", id |-> f, st |-> IF f \in sch.gone THEN "NotExists" ELSE "OK", n |-> extra]
AnswerFn ==
    /\ sch.fetch # <<>>
    /\ sch' = [sch EXCEPT !.fetch = Tail(@)] /\ Tell(Resp(Head(sch.fetch), 0))
    /\ Label(<<"answerfn", 0, 1>>) /\ Same
Stray(f) ==
    /\ sch.stray < MaxStray
    /\ sch' = [sch EXCEPT !.stray = @ + 1] /\ Tell(Resp(f, 1)) /\ Label(<<"strayfn", f>>) /\ Same

(***************************************************************************)
(* The agent                                                               *)
(***************************************************************************)
RecvOf(m) ==
    CASE m.k = "Task" -> [Ev("recv", "Task", m.id) EXCEPT !.fn = sch.fn[m.id], !.args = <<m.id>>,
                                                          !.n = IF m.id \in sch.bad THEN 1 ELSE 0]
      [] m.k = "BalanceRequest" -> [Ev("recv", "BalanceRequest", "") EXCEPT !.n = m.n]
      [] m.k = "FunctionResponse" -> [Ev("recv", m.k, m.id) EXCEPT !.st = m.st, !.n = m.n]
      [] m.k = "Delete" -> [Ev("recv", "FunctionRequest", m.id) EXCEPT !.st = "Delete"]
      [] OTHER -> Ev("recv", m.k, m.id)
SendRes(t, st) == [Ev("send", "TaskResult", t) EXCEPT !.st = st]

NewProc == \* kill the processor (what it wrote last may still arrive) and start another
    /\ \E k \in 0..Len(up) : up' = SubSeq(up, 1, k) \o <<[k |-> "ready", id |-> ""]>>
    /\ pst' = "new" /\ pt' = "" /\ cache' = {} /\ ini' = FALSE
    /\ \/ dn' = <<>>
       \/ pst = "dead" /\ dn' = dn  \* what was sent to a processor that is gone waits for the next one
KillEv == [Ev("kill", "", IF pst = "run" THEN pt ELSE "") EXCEPT !.n = 1]
Spawned == IF pst = "dead" THEN <<Ev("spawn", "", "")>> ELSE <<KillEv>>
NoteSched(t) == sch' = [sch EXCEPT !.known = @ \ {t}]

OnMsg ==
    /\ in # <<>> /\ in' = Tail(in) /\ log' = log
    /\ LET m == Head(in) r == RecvOf(m) IN
       CASE m.k = "Task" ->
              /\ q' = IF m.id \in Range2(q) \/ m.id = cur THEN q ELSE Append(q, m.id)
              /\ Seen(<<r>>)
              /\ h' = [h EXCEPT !.deliv = Up1(@, m.id)]
              /\ UNCHANGED <<cur, ini, proc, dn, up, sch>>
         [] m.k = "TaskCancel" ->
              IF m.id \in Range2(q)
              THEN /\ q' = SelectSeq(q, LAMBDA x : x # m.id)
                   /\ Seen(<<r, SendRes(m.id, "Canceled")>>) /\ Final(m.id) /\ NoteSched(m.id)
                   /\ UNCHANGED <<cur, ini, proc, dn, up>>
              ELSE IF cur = m.id
              THEN /\ cur' = "" /\ Final(m.id) /\ NoteSched(m.id) /\ UNCHANGED q
                   /\ IF ini THEN NewProc /\ Seen(<<r>> \o Spawned \o <<SendRes(m.id, "Canceled")>>)
                      ELSE Seen(<<r, SendRes(m.id, "Canceled")>>) /\ UNCHANGED <<ini, proc, dn, up>>
              ELSE /\ Seen(<<r, SendRes(m.id, "NotFound")>>)
                   /\ UNCHANGED <<agent, proc, dn, up, h, sch>>
         [] m.k = "BalanceRequest" ->
              LET k == Min2(m.n, Len(q)) give == SubSeq(q, 1, k) IN
              /\ q' = SubSeq(q, k + 1, Len(q))
              /\ Seen(<<r, [Ev("send", "BalanceResponse", "") EXCEPT !.ids = give]>>)
              /\ h' = [h EXCEPT !.ret = FoldSet(LAMBDA t, x : Up1(x, t), @, Range2(give))]
              /\ sch' = [sch EXCEPT !.known = @ \ Range2(give), !.lost = @ \cup (sch.known \cap Range2(give))]
              /\ UNCHANGED <<cur, ini, proc, dn, up>>
         [] m.k = "Delete" ->
              /\ dn' = Append(dn, m)
              /\ Seen(<<r>>) /\ UNCHANGED <<agent, proc, up, h, sch>>
         [] m.k = "FunctionResponse" ->
              IF ~ini \/ cur = "" \/ sch.fn[cur] # m.id
              THEN Seen(<<r>>) /\ UNCHANGED <<agent, proc, dn, up, h, sch>>
              ELSE IF m.st = "NotExists"
              THEN /\ cur' = "" /\ NewProc /\ Seen(<<r>> \o Spawned) /\ UNCHANGED <<q, h, sch>>
              ELSE /\ dn' = Append(dn, m) /\ Seen(<<r>>) /\ UNCHANGED <<agent, proc, up, h, sch>>

Take ==
    /\ cur = "" /\ ini /\ q # <<>>
    /\ cur' = Head(q) /\ q' = Tail(q)
    /\ IF pst = "dead" THEN NewProc /\ Seen(Spawned)
       ELSE dn' = Append(dn, Msg("Task", Head(q))) /\ UNCHANGED <<s, bad, ini, proc, up>>
    /\ UNCHANGED <<in, sch, h, log>>

Notice == \* the processor is gone
    /\ pst = "dead" /\ NewProc
    /\ IF ini /\ cur # ""
       THEN /\ cur' = "" /\ Seen(Spawned \o <<[SendRes(cur, "Failed") EXCEPT !.n = 1]>>) /\ Final(cur) /\ NoteSched(cur)
       ELSE Seen(Spawned) /\ UNCHANGED <<cur, h, sch>>
    /\ UNCHANGED <<q, in, log>>

FromProc ==
    /\ up # <<>> /\ up' = Tail(up)
    /\ LET m == Head(up) IN
       CASE m.k = "ready" -> /\ ini' = TRUE /\ dn' = IF cur # "" /\ ~ini THEN Append(dn, Msg("Task", cur)) ELSE dn
                             /\ UNCHANGED <<s, bad, q, cur, h, sch>>
         [] m.k = "fetch" -> IF ini /\ cur # "" /\ sch.fn[cur] = m.id
                             THEN /\ Seen(<<[Ev("send", "FunctionRequest", m.id) EXCEPT !.st = "Request"]>>)
                                  /\ sch' = [sch EXCEPT !.fetch = Append(@, m.id)] /\ UNCHANGED <<agent, dn, h>>
                             ELSE UNCHANGED <<s, bad, agent, dn, h, sch>>
         [] OTHER -> IF ini /\ cur = m.id
                     THEN /\ Seen(<<[Ev("send", "TaskResult", m.id) EXCEPT !.st = m.st, !.body = m.body, !.n = IF m.st = "Failed" THEN 1 ELSE 0]>>)
                          /\ cur' = "" /\ Final(m.id) /\ NoteSched(m.id) /\ UNCHANGED <<q, ini, dn>>
                     ELSE UNCHANGED <<s, bad, agent, dn, h, sch>>
    /\ UNCHANGED <<proc, in, log>>

(***************************************************************************)
(* The processor                                                           *)
(***************************************************************************)
Run(t) == \* load and start, or fail to load
    IF t \in sch.bad
    THEN /\ pst' = "ready" /\ pt' = ""
         /\ up' = Append(up, [k |-> "result", id |-> t, st |-> "Failed", body |-> "x:UserError:load"])
         /\ UNCHANGED <<s, bad, h>>
    ELSE /\ pst' = "run" /\ pt' = t /\ UNCHANGED up
         /\ Seen(<<[Ev("start", "", t) EXCEPT !.fn = sch.fn[t], !.args = <<t>>]>>)
         /\ h' = [h EXCEPT !.runs = Up1(@, t)]

Process ==
    /\ dn # <<>> /\ pst \notin {"run", "dead"} /\ dn' = Tail(dn)
    /\ LET m == Head(dn) IN
       CASE m.k = "Task" ->
              IF sch.fn[m.id] \in cache THEN Run(m.id) /\ UNCHANGED cache
              ELSE /\ pst' = "fetch" /\ pt' = m.id /\ up' = Append(up, [k |-> "fetch", id |-> sch.fn[m.id]])
                   /\ UNCHANGED <<s, bad, cache, h>>
         [] m.k = "FunctionResponse" ->
              IF pst # "fetch" \/ sch.fn[pt] # m.id THEN UNCHANGED <<s, bad, proc, up, h>>
              ELSE cache' = cache \cup {m.id} /\ Run(pt)
         [] OTHER -> cache' = cache \ {m.id} /\ UNCHANGED <<s, bad, pst, pt, up, h>>
    /\ UNCHANGED <<agent, in, sch, log>>

Finish(kind) ==
    /\ pst = "run" /\ pst' = "ready" /\ pt' = ""
    /\ Seen(<<[Ev("end", "", pt) EXCEPT !.st = kind, !.body = (IF kind = "ret" THEN "v:" ELSE "x:") \o pt]>>)
    /\ up' = Append(up, [k |-> "result", id |-> pt, st |-> IF kind = "ret" THEN "Success" ELSE "Failed",
                         body |-> (IF kind = "ret" THEN "v:" ELSE "x:") \o pt])
    /\ Label(<<"finish", kind>>)
    /\ UNCHANGED <<agent, cache, dn, in, sch, h>>

Expire(f) == \* not looked up for too long
    /\ sch.exps < MaxExpires /\ f \in cache /\ cache' = cache \ {f} /\ sch' = [sch EXCEPT !.exps = @ + 1]
    /\ Seen(<<[Ev("clock", "", "") EXCEPT !.n = s.now + 25]>>)
    /\ UNCHANGED <<agent, pst, pt, dn, up, in, h, log>>

Die == \* what it wrote last may still arrive
    /\ \A i \in 1..Len(up) : up[i].k # "ready"  \* (words of two processors that they have started are not told apart)
    /\ sch.dies < MaxDies /\ pst # "dead" /\ sch' = [sch EXCEPT !.dies = @ + 1]
    /\ \E k \in 0..Len(up) : up' = SubSeq(up, 1, k)
    /\ pst' = "dead" /\ pt' = "" /\ cache' = {} /\ dn' = <<>>
    /\ Seen(<<Ev("died", "", IF pst = "run" THEN pt ELSE "")>>)
    /\ Label(<<"die">>) /\ UNCHANGED <<agent, in, h>>

Internal == OnMsg \/ Take \/ Notice \/ FromProc \/ Process
Tasks == DOMAIN sch.fn
Next ==
    \/ Internal
    \/ \E f \in Fn : Expire(f)
    \/ /\ Room
       /\ \/ \E f \in Fn, b \in {FALSE, TRUE} : NewTask(f, b)
          \/ \E t \in Tasks : Cancel(t) \/ Redeliver(t)
          \/ \E n \in 1..2 : Balance(n)
          \/ \E f \in Fn : Delete(f) \/ Drop(f) \/ Stray(f)
          \/ Forget \/ AnswerFn \/ Die
          \/ \E k \in {"ret", "raise"} : Finish(k)

Spec == Init /\ [][Next]_vars
\* what does not stop by itself goes on
FairSpec == Spec /\ WF_vars(Internal) /\ WF_vars(AnswerFn) /\ WF_vars(\E k \in {"ret", "raise"} : Finish(k))

View == <<s, bad, q, cur, ini, pst, pt, cache, dn, up, in, sch, h, IF LogLen = 0 THEN <<>> ELSE log>>

(***************************************************************************)
(* What must hold                                                          *)
(***************************************************************************)
NothingBad == bad = {}
\* the judge's idea of the cache
SameCache == \A f \in DOMAIN s.cache : f \in cache \/ s.now - s.cache[f] > Spec0.fret
\* nothing that is at rest owes anybody anything
AtRest == ~Busy => Fails(s, Ev("idle", "", "")) \subseteq {}
\* in terms of what the scheduler and user code see
FinalOnce == \A t \in Tasks : Cnt(h.fin, t) + Cnt(h.ret, t) <= Cnt(h.deliv, t)
RunsOnce == \A t \in Tasks : Cnt(h.runs, t) <= Cnt(h.deliv, t)
NeverUnasked == \A t \in Tasks : Cnt(h.deliv, t) = 0 => Cnt(h.runs, t) = 0
\* judge and model agree on what the worker holds
SameHeld == Range2(q) \cup (IF cur = "" THEN {} ELSE {cur}) \subseteq Range2(s.held)
SameHeld2 == {t \in Range2(s.held) : t \notin s.drop} \subseteq Range2(q) \cup {cur}
\* the worker can always take part: nobody waits for something that cannot come
Alive == ~Busy /\ cur # "" /\ ini => pst \in {"run", "fetch"} /\ (pst = "fetch" => sch.fn[cur] \in Range2(sch.fetch))
\* every task that arrives and stays wanted is answered
Answered == \A i \in 1..MaxTasks : LET t == "t" \o ToString(i) IN (Holds(s, t) /\ t \notin s.drop) ~> (~Holds(s, t) \/ t \in s.drop)

Dump == LogLen > 0 /\ Len(log) >= LogLen => PrintT(<<"SCHED", ToJson(log)>>)
=============================================================================
