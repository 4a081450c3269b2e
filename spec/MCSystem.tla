------------------------------ MODULE MCSystem ------------------------------
(***************************************************************************)
(* Closed model of the whole system: clients, the scheduler, workers, and  *)
(* FIFO connections between them.  Workers crash, fall silent, come back,  *)
(* leave and join; clients disconnect and crash.  Every step reports to    *)
(* the judge (module System): `bad` stays empty iff the protocol gives     *)
(* users what System promises.                                             *)
(***************************************************************************)
EXTENDS System, Json

CONSTANTS NClients, NWorkers, Limit, MaxSubs, MaxCrash, MaxSilence, MaxLeave, MaxJoin, MaxBye, MaxLost, MaxBal, MaxRaise, LogLen
Cl == {"c" \o ToString(i) : i \in 1..NClients}
Wk == {"w" \o ToString(i) : i \in 1..(NWorkers + MaxJoin)}
Wno(w) == CHOOSE i \in 1..(NWorkers + MaxJoin) : w = "w" \o ToString(i)

VARIABLES s, bad,      \* the judge
          fut,         \* client -> its unresolved submissions
          c2s, s2c, w2s, s2w, \* connections
          sch,         \* the scheduler
          wk,          \* the workers
          n, log
vars == <<s, bad, fut, c2s, s2c, w2s, s2w, sch, wk, n, log>>
View == <<s, bad, fut, c2s, s2c, w2s, s2w, sch, wk, n>>

Ev(e) == [e |-> e, k |-> "", id |-> "", w |-> "", c |-> "", x |-> "", st |-> "", val |-> "", n |-> 0, futs |-> <<>>,
          need |-> <<>>, res |-> <<>>, tasks |-> <<>>]
X(t) == "f1(" \o t \o ".a0)"
RECURSIVE Judge(_, _, _)
Judge(x, b, es) == IF es = <<>> THEN <<x, b>> ELSE Judge(Apply(x, Head(es)), b \cup Fails(x, Head(es)), Tail(es))
Seen(es) == LET r == Judge(s, bad, es) IN s' = r[1] /\ bad' = r[2]
Unseen == UNCHANGED <<s, bad>>

Room == LogLen = 0 \/ Len(log) < LogLen
Label(x) == Room /\ log' = IF LogLen = 0 THEN log ELSE log \o <<<<"c", 1>>, x>>
Quiet == log' = log
Up(f) == n' = [n EXCEPT ![f] = @ + 1]
Only(f, k, v) == [f EXCEPT ![k] = v]
Add(f, k, m) == [f EXCEPT ![k] = Append(@, m)]

Init ==
    LET w0 == {w \in Wk : Wno(w) <= NWorkers} IN
    /\ s = [InitState([limit |-> Limit]) EXCEPT !.up = w0] /\ bad = {}
    /\ fut = [c \in Cl |-> {}]
    /\ c2s = [c \in Cl |-> <<>>] /\ s2c = [c \in Cl |-> <<>>]
    /\ w2s = [w \in Wk |-> <<>>] /\ s2w = [w \in Wk |-> <<>>]
    /\ sch = [un |-> {}, at |-> NoFun, can |-> {}, own |-> NoFun, wk |-> {}]
    /\ wk = [w \in Wk |-> [up |-> w \in w0, quiet |-> FALSE, q |-> <<>>, cur |-> "", told |-> FALSE]]
    /\ n = [subs |-> 0, crash |-> 0, silence |-> 0, leave |-> 0, join |-> 0, bye |-> 0, lost |-> 0, bal |-> 0, raise |-> 0]
    /\ log = <<>>

(***************************************************************************)
(* Clients                                                                 *)
(***************************************************************************)
Here(c) == ~Has(s.st, c)
Submit(c) ==
    /\ Here(c) /\ n.subs < MaxSubs /\ Up("subs")
    /\ LET t == c \o "s" \o ToString(n.subs + 1) IN
       /\ Seen(<<[Ev("call") EXCEPT !.k = "submit", !.c = c, !.id = t, !.futs = <<<<t, X(t)>>>>, !.need = <<X(t)>>],
                 [Ev("ret") EXCEPT !.k = "submit", !.c = c, !.id = t, !.st = "ok"]>>)
       /\ fut' = [fut EXCEPT ![c] = @ \cup {t}]
       /\ c2s' = Add(c2s, c, [k |-> "Task", t |-> t])
    /\ Label(<<"submit", c, "f1">>) /\ UNCHANGED <<s2c, w2s, s2w, sch, wk>>

Bye(c) ==
    /\ Here(c) /\ n.bye < MaxBye /\ Up("bye")
    /\ LET ts == SetToSeq(fut[c]) IN
       /\ Seen(<<[Ev("call") EXCEPT !.k = "disconnect", !.c = c]>>
               \o [i \in DOMAIN ts |-> [Ev("done") EXCEPT !.id = ts[i], !.val = Gone]])
       /\ c2s' = [c2s EXCEPT ![c] = @ \o [i \in DOMAIN ts |-> [k |-> "Cancel", t |-> ts[i]]]]
    /\ fut' = [fut EXCEPT ![c] = {}]
    /\ Label(<<"disconnect", c>>) /\ UNCHANGED <<s2c, w2s, s2w, sch, wk>>

Vanish(c) == \* its process is gone, what it sent may still arrive
    /\ Here(c) /\ n.lost < MaxLost /\ Up("lost")
    /\ Seen(<<[Ev("lost") EXCEPT !.c = c]>>)
    /\ fut' = [fut EXCEPT ![c] = {}]
    /\ \E k \in 0..Len(c2s[c]) : c2s' = [c2s EXCEPT ![c] = SubSeq(@, 1, k)]
    /\ Label(<<"lose", c>>) /\ UNCHANGED <<s2c, w2s, s2w, sch, wk>>

ClientRecv(c) ==
    /\ s2c[c] # <<>> /\ s2c' = [s2c EXCEPT ![c] = Tail(@)]
    /\ LET m == Head(s2c[c]) IN
       IF m.t \in fut[c]
       THEN /\ fut' = [fut EXCEPT ![c] = @ \ {m.t}]
            /\ Seen(<<[Ev("done") EXCEPT !.id = m.t, !.val = CASE m.k = "ret" -> "v:" \o X(m.t)
                                                               [] m.k = "raise" -> "x:UserError:e." \o X(m.t)
                                                               [] OTHER -> "x:CancelledError"]>>)
       ELSE UNCHANGED fut /\ Unseen
    /\ Quiet /\ UNCHANGED <<c2s, w2s, s2w, sch, wk, n>>

(***************************************************************************)
(* The scheduler                                                           *)
(***************************************************************************)
Load(w) == Cardinality({t \in DOMAIN sch.at : sch.at[t] = w})
Free(w) == w \in sch.wk /\ Load(w) < Limit /\ \A v \in sch.wk : Load(w) <= Load(v)
Del1(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Finished(x, t) == [x EXCEPT !.un = @ \ {t}, !.at = Del1(@, t), !.can = @ \ {t}]

SchClient(c) ==
    /\ c2s[c] # <<>> /\ c2s' = [c2s EXCEPT ![c] = Tail(@)]
    /\ LET m == Head(c2s[c]) IN
       CASE m.k = "Task" -> sch' = [sch EXCEPT !.un = @ \cup {m.t}, !.own = Put(@, m.t, c)] /\ UNCHANGED <<s2c, s2w>>
         [] m.k = "Cancel" /\ m.t \in sch.un ->
                sch' = Finished(sch, m.t) /\ s2c' = Add(s2c, c, [k |-> "can", t |-> m.t]) /\ UNCHANGED s2w
         [] m.k = "Cancel" /\ Has(sch.at, m.t) ->
                /\ sch' = [sch EXCEPT !.can = @ \cup {m.t}]
                /\ s2w' = Add(s2w, sch.at[m.t], [k |-> "Cancel", t |-> m.t]) /\ UNCHANGED s2c
         [] OTHER -> UNCHANGED <<sch, s2c, s2w>>
    /\ Unseen /\ Quiet /\ UNCHANGED <<fut, w2s, wk, n>>

Assign(t, w) ==
    /\ t \in sch.un /\ Free(w)
    /\ sch' = [sch EXCEPT !.un = @ \ {t}, !.at = Put(@, t, w)]
    /\ s2w' = Add(s2w, w, [k |-> "Task", t |-> t])
    /\ Unseen /\ Quiet /\ UNCHANGED <<fut, c2s, s2c, w2s, wk, n>>

RECURSIVE Rerouted(_, _, _)
Rerouted(x, out, ts) == \* tasks a worker will not answer for
    IF ts = {} THEN <<x, out>>
    ELSE LET t == CHOOSE y \in ts : TRUE IN
         IF t \in x.can THEN Rerouted(Finished(x, t), Add(out, x.own[t], [k |-> "can", t |-> t]), ts \ {t})
         ELSE Rerouted([x EXCEPT !.at = Del1(@, t), !.un = @ \cup {t}], out, ts \ {t})

Lose(x, w) == Rerouted([x EXCEPT !.wk = @ \ {w}], s2c, {t \in DOMAIN x.at : x.at[t] = w})

SchWorker(w) ==
    /\ w2s[w] # <<>> /\ ~wk[w].quiet /\ w2s' = [w2s EXCEPT ![w] = Tail(@)]
    /\ LET m == Head(w2s[w]) IN
       CASE m.k = "hb" -> sch' = [sch EXCEPT !.wk = @ \cup {w}] /\ UNCHANGED s2c
         [] m.k = "bye" -> LET r == Lose(sch, w) IN sch' = r[1] /\ s2c' = r[2]
         [] m.k = "back" -> LET r == Rerouted(sch, s2c, {m.t} \cap DOMAIN sch.at) IN sch' = r[1] /\ s2c' = r[2]
         [] OTHER -> IF Has(sch.at, m.t)
                     THEN sch' = Finished(sch, m.t) /\ s2c' = Add(s2c, sch.own[m.t], m)
                     ELSE UNCHANGED <<sch, s2c>>
    /\ Unseen /\ Quiet /\ UNCHANGED <<fut, c2s, s2w, wk, n>>

Timeout(w) == \* nothing heard for too long
    /\ w \in sch.wk /\ (wk[w].quiet \/ (~wk[w].up /\ w2s[w] = <<>>))
    /\ LET r == Lose(sch, w) IN sch' = r[1] /\ s2c' = r[2]
    /\ Unseen /\ Label(<<"tick", 8>>) /\ UNCHANGED <<fut, c2s, w2s, s2w, wk, n>>

Balance(w) ==
    /\ n.bal < MaxBal /\ w \in sch.wk /\ Load(w) > 1 /\ Up("bal")
    /\ s2w' = Add(s2w, w, [k |-> "Balance", t |-> ""])
    /\ Unseen /\ Quiet /\ UNCHANGED <<fut, c2s, s2c, w2s, sch, wk>>

(***************************************************************************)
(* Workers                                                                 *)
(***************************************************************************)
Holds(w, t) == wk[w].cur = t \/ t \in Range2(wk[w].q)
Beat(w) ==
    /\ wk[w].up /\ ~wk[w].told /\ w \notin sch.wk /\ w2s[w] = <<>> /\ ~wk[w].quiet
    /\ w2s' = Add(w2s, w, [k |-> "hb", t |-> ""])
    /\ Unseen /\ Quiet /\ UNCHANGED <<fut, c2s, s2c, s2w, sch, wk, n>>

WorkerRecv(w) ==
    /\ wk[w].up /\ ~wk[w].quiet /\ s2w[w] # <<>> /\ s2w' = [s2w EXCEPT ![w] = Tail(@)]
    /\ LET m == Head(s2w[w]) x == wk[w] IN
       CASE m.k = "Task" ->
                /\ wk' = IF Holds(w, m.t) THEN wk ELSE [wk EXCEPT ![w].q = Append(@, m.t)]
                /\ Unseen /\ UNCHANGED w2s
         [] m.k = "Cancel" ->
                /\ wk' = [wk EXCEPT ![w] = [@ EXCEPT !.cur = IF @ = m.t THEN "" ELSE @,
                                                     !.q = SelectSeq(@, LAMBDA y : y # m.t)]]
                /\ w2s' = Add(w2s, w, [k |-> IF Holds(w, m.t) THEN "can" ELSE "nf", t |-> m.t])
                /\ IF x.cur = m.t THEN Seen(<<[Ev("killed") EXCEPT !.w = w, !.x = X(m.t)]>>) ELSE Unseen
         [] OTHER ->
                /\ Unseen
                /\ IF x.q = <<>> THEN UNCHANGED <<wk, w2s>>
                   ELSE /\ wk' = [wk EXCEPT ![w].q = SubSeq(@, 1, Len(@) - 1)]
                        /\ w2s' = Add(w2s, w, [k |-> "back", t |-> x.q[Len(x.q)]])
    /\ Quiet /\ UNCHANGED <<fut, c2s, s2c, sch, n>>

Start(w) ==
    /\ wk[w].up /\ wk[w].cur = "" /\ wk[w].q # <<>>
    /\ wk' = [wk EXCEPT ![w] = [@ EXCEPT !.cur = Head(wk[w].q), !.q = Tail(@)]]
    /\ Seen(<<[Ev("start") EXCEPT !.w = w, !.x = X(Head(wk[w].q))]>>)
    /\ Quiet /\ UNCHANGED <<fut, c2s, s2c, w2s, s2w, sch, n>>

End(w, how) ==
    /\ wk[w].up /\ wk[w].cur # ""
    /\ IF how = "raise" THEN n.raise < MaxRaise /\ Up("raise") ELSE n' = n
    /\ wk' = [wk EXCEPT ![w].cur = ""]
    /\ w2s' = Add(w2s, w, [k |-> how, t |-> wk[w].cur])
    /\ Seen(<<[Ev("end") EXCEPT !.w = w, !.x = X(wk[w].cur), !.st = how]>>)
    /\ Label(<<"finishx", X(wk[w].cur), how>>) /\ UNCHANGED <<fut, c2s, s2c, s2w, sch>>

Gone1(w) == IF wk[w].cur = "" THEN <<>> ELSE <<[Ev("killed") EXCEPT !.w = w, !.x = X(wk[w].cur)]>>
Dead(w) == [wk EXCEPT ![w] = [@ EXCEPT !.up = FALSE, !.quiet = FALSE, !.q = <<>>, !.cur = ""]]
Survivor(w) == \E v \in Wk \ {w} : wk[v].up /\ ~wk[v].told
Crash(w) ==
    /\ wk[w].up /\ n.crash < MaxCrash /\ Up("crash") /\ Survivor(w)
    /\ Seen(<<[Ev("crash") EXCEPT !.w = w]>> \o Gone1(w))
    /\ wk' = Dead(w) /\ s2w' = [s2w EXCEPT ![w] = <<>>]
    /\ \E k \in 0..Len(w2s[w]) : w2s' = [w2s EXCEPT ![w] = SubSeq(@, 1, k)]
    /\ Label(<<"crash", w>>) /\ UNCHANGED <<fut, c2s, s2c, sch>>

Silence(w) ==
    /\ wk[w].up /\ ~wk[w].quiet /\ n.silence < MaxSilence /\ Up("silence")
    /\ Seen(<<[Ev("silent") EXCEPT !.w = w]>>)
    /\ wk' = [wk EXCEPT ![w].quiet = TRUE]
    /\ Label(<<"silence", w>>) /\ UNCHANGED <<fut, c2s, s2c, w2s, s2w, sch>>
Heal(w) ==
    /\ wk[w].quiet /\ wk' = [wk EXCEPT ![w].quiet = FALSE]
    /\ Seen(<<[Ev("heal") EXCEPT !.w = w]>>)
    /\ Label(<<"heal", w>>) /\ UNCHANGED <<fut, c2s, s2c, w2s, s2w, sch, n>>

Leave(w) ==
    /\ wk[w].up /\ ~wk[w].told /\ n.leave < MaxLeave /\ Up("leave") /\ Survivor(w)
    /\ Seen(<<[Ev("leave") EXCEPT !.w = w], [Ev("exit") EXCEPT !.k = "worker", !.w = w, !.st = "ok"]>> \o Gone1(w))
    /\ wk' = Dead(w) /\ s2w' = [s2w EXCEPT ![w] = <<>>]
    /\ w2s' = Add(w2s, w, [k |-> "bye", t |-> ""])
    /\ Label(<<"leave", w>>) /\ UNCHANGED <<fut, c2s, s2c, sch>>

Join(w) ==
    /\ n.join < MaxJoin /\ Wno(w) = NWorkers + n.join + 1 /\ Up("join")
    /\ wk' = [wk EXCEPT ![w].up = TRUE]
    /\ Seen(<<[Ev("join") EXCEPT !.w = w]>>)
    /\ Label(<<"join">>) /\ UNCHANGED <<fut, c2s, s2c, w2s, s2w, sch>>

(***************************************************************************)
(* Rest                                                                    *)
(***************************************************************************)
Busy ==
    \/ \E c \in Cl : c2s[c] # <<>> \/ s2c[c] # <<>>
    \/ \E w \in Wk : ~wk[w].quiet /\ (w2s[w] # <<>> \/ (wk[w].up /\ s2w[w] # <<>>))
    \/ \E w \in Wk : wk[w].up /\ wk[w].cur = "" /\ wk[w].q # <<>>
    \/ \E w \in Wk : wk[w].up /\ ~wk[w].quiet /\ w \notin sch.wk
    \/ sch.un # {} /\ \E w \in sch.wk : Free(w)
Idle ==
    /\ ~Busy /\ (IdleFails(s) # {} \/ Apply(s, Ev("idle")) # s)
    /\ Seen(<<Ev("idle")>>) /\ Quiet /\ UNCHANGED <<fut, c2s, s2c, w2s, s2w, sch, wk, n>>

Internal ==
    \/ \E c \in Cl : SchClient(c) \/ ClientRecv(c)
    \/ \E w \in Wk : SchWorker(w) \/ Beat(w) \/ WorkerRecv(w) \/ Start(w)
    \/ \E t \in sch.un, w \in sch.wk : Assign(t, w)
    \/ Idle
Env ==
    \/ \E c \in Cl : Submit(c) \/ Bye(c) \/ Vanish(c)
    \/ \E w \in Wk : Timeout(w) \/ Balance(w) \/ Crash(w) \/ Silence(w) \/ Heal(w) \/ Leave(w) \/ Join(w)
                     \/ End(w, "ret") \/ End(w, "raise")
Next == Internal \/ Env
Spec == Init /\ [][Next]_vars
FairSpec ==
    /\ Spec /\ WF_vars(Internal)
    /\ \A c \in Cl : WF_vars(SchClient(c)) /\ WF_vars(ClientRecv(c))
    /\ \A w \in Wk :
         /\ WF_vars(End(w, "ret")) /\ WF_vars(Timeout(w)) /\ WF_vars(Heal(w))
         /\ WF_vars(SchWorker(w)) /\ WF_vars(WorkerRecv(w)) /\ WF_vars(Start(w)) /\ WF_vars(Beat(w))
         /\ SF_vars(\E t \in sch.un : Assign(t, w))

NothingBad == bad = {}
\* everything returned, everyone back, all timeouts passed: nothing is left
Rests == ~Busy /\ s.run = {} /\ \A w \in Wk : ~wk[w].quiet /\ (w \in sch.wk => wk[w].up)
SlotsOf(v) == <<Limit - Load(v), Load(v)>>
RestReport == [Ev("rest") EXCEPT !.tasks = <<Cardinality(sch.un), Cardinality(DOMAIN sch.at)>>,
                                 !.res = LET q == SetToSeq(sch.wk) IN [i \in DOMAIN q |-> SlotsOf(q[i])]]
AtRest == Rests => RestFails(s, RestReport) = {}
\* the load of every worker is what the scheduler gave it and has not heard of
SameHeld == \A t \in DOMAIN sch.at : LET w == sch.at[t] IN
    \/ w \in s.sick \/ Holds(w, t)
    \/ \E i \in DOMAIN s2w[w] : s2w[w][i].k = "Task" /\ s2w[w][i].t = t
    \/ \E i \in DOMAIN w2s[w] : w2s[w][i].t = t
OverLimit == \A w \in sch.wk : Load(w) <= Limit
Finishes == \A c \in Cl : (fut[c] # {}) ~> (fut[c] = {})
Dump == Len(log) >= LogLen => PrintT(<<"SCHED", ToJson(log)>>)
=============================================================================
