-------------------------------- MODULE Worker --------------------------------
(***************************************************************************)
(* One worker (agent, processor, function cache) as seen by the scheduler  *)
(* it is connected to and by the user functions it runs.                   *)
(*                                                                         *)
(* Events:  recv / send  a message at the agent's outer socket             *)
(*          start / end  a user function begins / is done (st says how)    *)
(*          spawn / kill a processor is started / killed while running id  *)
(*          told         the user interrupts the worker                    *)
(*          clock        time passes (tenths of a second)                  *)
(*          collect / trim  the processor collects garbage / gives memory  *)
(*                       back to the system                                *)
(*          workers      how many workers a cluster has started            *)
(*          idle         nothing more happens without outside stimulus     *)
(*          exit / gone  the agent ended / and everything came to rest     *)
(* Fails(s, e) names the rules e breaks in s; Apply(s, e) is the state     *)
(* after e.  MCWorker explores the closed model, TraceWorker judges        *)
(* executions of the real worker.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Held

NoFun == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f
Cnt(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Dec(f, k) == IF Cnt(f, k) <= 1 THEN Del(f, k) ELSE [f EXCEPT ![k] = @ - 1]
Range2(q) == {q[i] : i \in DOMAIN q}
Sweep == 10  \* seconds between checks for disused functions, in tenths

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(***************************************************************************)
(*  held   tasks delivered and neither answered, cancelled nor returned,   *)
(*         in arrival order                                                *)
(*  tk     task -> function, arguments, whether they can be loaded         *)
(*  run    the task whose function is running ("" none)                    *)
(*  ended  task -> how its function ended, not yet reported                *)
(*  fetch  function -> requests not answered                               *)
(*  can    task -> cancellations not answered                              *)
(*  bal    balance requests not answered (their sizes)                     *)
(*  drop   held tasks whose function the scheduler does not have: it knows *)
(*         nothing of them any more, so they may be forgotten              *)
(*  flt    of those, delivered again: their place in the order is open     *)
(*  out    how a task was last got rid of                                  *)
(*  cache  functions the processor surely has -> when last looked up       *)
(*  stale  those it surely dropped after disuse                            *)
(*  vague  functions deleted lately: whether it has them is open           *)
(*  del    of those, the ones not looked up since                          *)
(*  gcAt   when the processor last collected garbage, or started           *)
(*  died   when the processor died by itself, -1 when there is one         *)
(*  hurt   tasks it may have taken with it                                 *)
(*  back   how far the wall clock was put back: what it measures comes     *)
(*         that much later                                                 *)
(*  collected  it has just done so, and the memory is to be given back     *)
(***************************************************************************)
InitState(cfg) ==
    [cfg |-> cfg, now |-> 0, held |-> <<>>, tk |-> NoFun, run |-> "", ended |-> NoFun, fetch |-> NoFun, can |-> NoFun,
     bal |-> <<>>, drop |-> {}, flt |-> {}, out |-> NoFun, hbOut |-> FALSE, hbAt |-> 0, first |-> TRUE, echoAt |-> 0,
     told |-> FALSE, disc |-> FALSE, over |-> FALSE, settled |-> FALSE, recent |-> FALSE,
     cache |-> NoFun, stale |-> {}, vague |-> {}, del |-> {}, gcAt |-> 0, collected |-> FALSE, kept |-> NoFun, back |-> 0,
     died |-> -1, hurt |-> {}]

Holds(s, t) == t \in Range2(s.held)
Live(s) == SelectSeq(s.held, LAMBDA t : t \notin s.drop)
Unstarted(s) == SelectSeq(s.held, LAMBDA t : s.run # t /\ ~Has(s.ended, t))
Overdue(s) == s.now - s.echoAt >= s.cfg.death

RidOf(s, t, how) ==
    [s EXCEPT !.held = SelectSeq(@, LAMBDA x : x # t), !.ended = Del(@, t), !.drop = @ \ {t}, !.flt = @ \ {t}, !.hurt = @ \ {t},
              !.out = Put(@, t, how), !.recent = TRUE]

(***************************************************************************)
(* Messages from the scheduler                                             *)
(***************************************************************************)
OnTask(s, e) ==
    LET k == [fn |-> e.fn, args |-> e.args, bad |-> e.n = 1] IN
    IF ~Holds(s, e.id)
    THEN [s EXCEPT !.held = Append(@, e.id), !.tk = Put(@, e.id, k), !.out = Del(@, e.id)]
    ELSE IF e.id \in s.drop THEN [s EXCEPT !.drop = @ \ {e.id}, !.flt = @ \cup {e.id}, !.ended = Del(@, e.id)]
    ELSE s  \* delivered again while held: nothing changes

\* what the processor holds is not known any more
Blur(s, f) == [s EXCEPT !.cache = Del(@, f), !.stale = @ \ {f}, !.del = @ \ {f}]
Emptied(s) == [s EXCEPT !.cache = NoFun, !.stale = {}, !.del = {}]

OnFunctionResponse(s, e) ==
    LET s1 == IF e.n = 1 THEN s ELSE [s EXCEPT !.fetch = Dec(@, e.id)]
    IN  IF e.st = "OK" THEN [s1 EXCEPT !.stale = @ \ {e.id}, !.del = @ \ {e.id}]
        ELSE [s1 EXCEPT !.drop = @ \cup {t \in Range2(s.held) : s.tk[t].fn = e.id /\ t \notin s.flt}]

OnRecv(s, e) ==
    CASE e.k = "Task" -> OnTask(s, e)
      [] e.k = "TaskCancel" -> [s EXCEPT !.can = Put(@, e.id, Cnt(@, e.id) + 1)]
      [] e.k = "BalanceRequest" -> [s EXCEPT !.bal = Append(@, e.n)]
      [] e.k = "FunctionResponse" -> OnFunctionResponse(s, e)
      [] e.k = "FunctionRequest" -> [Blur(s, e.id) EXCEPT !.vague = @ \cup {e.id}, !.del = @ \cup {e.id}]
      [] e.k = "HeartbeatEcho" -> IF s.hbOut THEN [s EXCEPT !.hbOut = FALSE, !.echoAt = s.now] ELSE s
      [] OTHER -> s

(***************************************************************************)
(* Running user functions                                                  *)
(***************************************************************************)
\* whose turn it is: everything delivered before is done, forgotten, or has no fixed place
Turn(s, t) ==
    \/ t \in s.flt
    \/ \E i \in DOMAIN s.held : s.held[i] = t /\ \A j \in 1..(i - 1) : s.held[j] \in s.drop \cup s.flt

StartFails(s, e) ==
    LET t == e.id IN
    IF ~Holds(s, t)
    THEN IF Has(s.out, t)
         THEN {CASE s.out[t] = "canceled" -> "start.canceled" [] s.out[t] = "returned" -> "start.returned"
                 [] OTHER -> "start.repeated"}
         ELSE {"start.unknown"}
    ELSE UNION {
        IF s.run # "" /\ Holds(s, s.run) THEN {"start.concurrent"} ELSE {},
        IF s.run # "" /\ ~Holds(s, s.run) THEN {"cancel.running"} ELSE {},
        IF Has(s.ended, t) THEN {"start.repeated"} ELSE {},
        IF Turn(s, t) THEN {} ELSE {"start.order"},
        IF e.fn \in s.stale THEN {"cache.stale"} ELSE {},
        IF s.tk[t].fn = e.fn THEN {} ELSE {"start.function"},
        IF s.tk[t].args = e.args THEN {} ELSE {"start.args"} }

OnStart(s, e) ==
    LET before == {x \in s.drop : \E i, j \in DOMAIN s.held : s.held[i] = x /\ s.held[j] = e.id /\ i < j}
    IN  [FoldSet(LAMBDA x, y : RidOf(y, x, "forgotten"), s, before) EXCEPT !.run = e.id, !.drop = @ \ {e.id},
            !.cache = IF e.fn \in s.vague THEN @ ELSE Put(@, e.fn, s.now), !.stale = @ \ {e.fn}, !.del = @ \ {e.fn}]

\* the processor is gone, and with it the task it ran and maybe the one it was about to run or to report
OnDied(s, e) ==
    LET t == e.id IN
    [Emptied(s) EXCEPT !.run = "", !.died = IF @ < 0 THEN s.now ELSE @,
        !.ended = IF t # "" /\ Holds(s, t) THEN Put(@, t, <<"died", "">>) ELSE @,
        !.hurt = {x \in Range2(s.held) : x = t \/ Has(s.ended, x) \/ Turn(s, x)}]
DiedFails(s) == IF s.now >= s.died + s.cfg.hb + 10 + s.back THEN {"died.unnoticed"} ELSE {}

OnEnd(s, e) == [s EXCEPT !.run = "", !.ended = IF Holds(s, e.id) THEN Put(@, e.id, <<e.st, e.body>>) ELSE @]

KillFails(s, e) ==
    IF e.id # "" /\ Holds(s, e.id) /\ e.id \notin s.drop /\ Cnt(s.can, e.id) = 0 /\ ~s.disc THEN {"kill.wrong"} ELSE {}

(***************************************************************************)
(* Messages to the scheduler                                               *)
(***************************************************************************)
OutcomeFails(s, e) == \* a task's own outcome is reported
    LET t == e.id IN
    IF t \in s.hurt /\ e.st = "Failed" /\ e.n = 1 THEN {}
    ELSE IF s.tk[t].bad THEN IF e.st = "Failed" /\ e.n = 1 THEN {} ELSE {"wrong.outcome"}
    ELSE IF ~Has(s.ended, t) THEN {"wrong.unstarted"}
    ELSE LET how == s.ended[t][1] val == s.ended[t][2] IN
         CASE how = "ret" -> IF e.st = "Success" /\ e.body = val THEN {} ELSE {"wrong.outcome"}
           [] how = "raise" -> IF e.st = "Failed" /\ e.body = val THEN {} ELSE {"wrong.outcome"}
           [] OTHER -> IF e.st = "Failed" /\ e.n = 1 THEN {} ELSE {"wrong.outcome"}

ResultFails(s, e) ==
    LET t == e.id c == Cnt(s.can, t) IN
    CASE e.st \in {"Success", "Failed"} /\ Holds(s, t) -> OutcomeFails(s, e)
      [] e.st = "Canceled" /\ Holds(s, t) -> IF c > 0 THEN {} ELSE {"unexpected.Canceled"}
      [] e.st = "NotFound" /\ Holds(s, t) -> IF c > 0 /\ t \in s.drop \cup s.flt THEN {} ELSE {"wrong.notfound"}
      [] e.st = "NotFound" /\ ~Holds(s, t) -> IF c > 0 THEN {} ELSE {"unexpected.TaskResult"}
      [] ~Holds(s, t) /\ Has(s.out, t) ->
            {CASE s.out[t] = "returned" -> "result.returned" [] s.out[t] = "canceled" -> "result.canceled"
               [] OTHER -> "repeated.TaskResult"}
      [] OTHER -> {"unexpected.TaskResult"}

OnResult(s, e) ==
    LET t == e.id IN
    CASE e.st \in {"Success", "Failed"} -> RidOf(IF Holds(s, t) /\ s.tk[t].bad THEN Blur(s, s.tk[t].fn) ELSE s, t, "answered")
      [] e.st = "Canceled" -> RidOf([s EXCEPT !.can = Dec(@, t)], t, "canceled")
      [] OTHER -> LET s1 == [s EXCEPT !.can = Dec(@, t)] IN IF Holds(s, t) THEN RidOf(s1, t, "forgotten") ELSE s1

BalanceFails(s, e) ==
    LET ids == Range2(e.ids) free == Range2(Unstarted(s)) IN
    IF s.bal = <<>> THEN {"unexpected.BalanceResponse"}
    ELSE LET n == Head(s.bal) u == Cardinality(free) IN UNION {
        IF Cardinality(ids) = Len(e.ids) THEN {} ELSE {"balance.duplicate"},
        IF \A t \in ids : Holds(s, t) THEN {} ELSE {"balance.notheld"},
        IF \A t \in ids : Holds(s, t) => t \in free THEN {} ELSE {"balance.started"},
        IF Len(e.ids) > n THEN {"balance.toomany"} ELSE {},
        \* at most one task is on its way to the processor
        IF Len(e.ids) < Min2(n, u - Cardinality(s.drop \cap free) - (IF s.run = "" THEN 1 ELSE 0)) THEN {"balance.toofew"} ELSE {} }

OnBalance(s, e) ==
    [FoldSet(LAMBDA t, x : IF Holds(x, t) THEN RidOf(x, t, "returned") ELSE x, s, Range2(e.ids)) EXCEPT !.bal = Tail(@)]

HeartbeatFails(s, e) ==
    LET h == Len(s.held) IN UNION {
        IF s.hbOut THEN {"hb.unanswered"} ELSE {},
        IF ~s.first /\ s.now < s.hbAt + s.cfg.hb THEN {"hb.early"} ELSE {},
        IF e.n > h \/ e.n < h - Cardinality(s.drop) - 1 THEN {"hb.queue"} ELSE {},
        IF e.st = "busy" /\ s.held = <<>> /\ ~s.recent THEN {"hb.busy"} ELSE {},
        IF e.st = "free" /\ ((s.run # "" /\ Holds(s, s.run)) \/ (s.settled /\ s.died < 0 /\ Live(s) # <<>>)) THEN {"hb.free"} ELSE {} }

SendFails(s, e) ==
    CASE e.k = "TaskResult" -> ResultFails(s, e)
      [] e.k = "BalanceResponse" -> BalanceFails(s, e)
      [] e.k = "FunctionRequest" ->
            UNION {IF e.st = "Request" /\ \E t \in Range2(s.held) : s.tk[t].fn = e.id THEN {} ELSE {"unexpected.FunctionRequest"},
                   IF /\ Has(s.cache, e.id) /\ s.now - s.cache[e.id] <= s.cfg.fret
                      \* asked for before an answer to an earlier request made the task start
                      /\ \A t \in {s.run} \cup DOMAIN s.ended : Has(s.tk, t) => s.tk[t].fn # e.id
                   THEN {"cache.refetched"} ELSE {}}
      [] e.k = "Heartbeat" -> HeartbeatFails(s, e)
      [] e.k = "DisconnectRequest" ->
            UNION {IF s.told \/ Overdue(s) THEN {} ELSE {"exit.early"}, IF e.id = "self" THEN {} ELSE {"exit.wrongid"},
                   IF s.disc THEN {"exit.repeated"} ELSE {}}
      [] OTHER -> {"unexpected." \o e.k}

OnSend(s, e) ==
    CASE e.k = "TaskResult" -> OnResult(s, e)
      [] e.k = "BalanceResponse" -> OnBalance(s, e)
      [] e.k = "FunctionRequest" -> [Blur(s, e.id) EXCEPT !.fetch = Put(@, e.id, Cnt(@, e.id) + 1)]
      [] e.k = "Heartbeat" -> [s EXCEPT !.hbOut = TRUE, !.hbAt = s.now, !.first = FALSE]
      [] e.k = "DisconnectRequest" -> [s EXCEPT !.disc = TRUE]
      [] OTHER -> s

(***************************************************************************)
(* Idle points and the end                                                 *)
(***************************************************************************)
\* disused functions go within the interval of the cleaner, deleted ones when no function runs
OnIdle(s) ==
    LET old == {f \in DOMAIN s.cache : s.now - s.cache[f] > s.cfg.fret + Sweep + s.back}
    IN  [s EXCEPT !.cache = [f \in DOMAIN @ \ old |-> @[f]], !.stale = @ \cup old \cup (IF s.run = "" THEN s.del ELSE {}),
                  !.vague = IF s.run = "" THEN {} ELSE @, !.del = IF s.run = "" THEN {} ELSE @]

IdleFails(s) ==
    LET live == Live(s) IN UNION {
        IF s.died >= 0 THEN DiedFails(s) ELSE {},
        IF DOMAIN s.can # {} /\ s.died < 0 THEN {"missing.TaskResult"} ELSE {},
        IF s.bal # <<>> /\ s.died < 0 THEN {"missing.BalanceResponse"} ELSE {},
        IF s.run # "" /\ ~Holds(s, s.run) THEN {"cancel.running"} ELSE {},
        IF live = <<>> \/ s.died >= 0 \/ (s.run # "" /\ Holds(s, s.run)) THEN {}
        ELSE IF \E t \in Range2(live) : Has(s.ended, t) THEN {"missing.TaskResult"}
        ELSE IF \E t \in Range2(Unstarted(s)) : Turn(s, t) /\ Cnt(s.fetch, s.tk[t].fn) > 0 THEN {}
        ELSE IF s.tk[Head(live)].bad THEN {"stuck.bad"}
        ELSE {"stuck"},
        IF ~s.hbOut /\ s.now >= Max2(s.hbAt, s.echoAt) + s.cfg.hb THEN {"missing.Heartbeat"} ELSE {},
        IF Has(s.cfg, "gc") /\ s.died < 0 /\ s.now - s.gcAt >= s.cfg.gc + 10 + s.back THEN {"memory.late"} ELSE {},
        IF s.collected /\ s.died < 0 THEN {"memory.kept"} ELSE {},
        IF s.told \/ s.now - s.echoAt >= s.cfg.death + 10 + s.back THEN {"exit.missing"} ELSE {} }

ExitFails(s, e) == UNION {
    IF e.st = "crash" THEN {"crashed"} ELSE {},
    IF e.st # "crash" /\ ~s.told /\ ~Overdue(s) THEN {"exit.early"} ELSE {},
    IF e.st # "crash" /\ ~s.disc THEN {"exit.silent"} ELSE {} }

\* nothing of finished tasks remains, and the functions have aged out
Settled(s) == s.held = <<>> /\ s.run = "" /\ DOMAIN s.fetch = {} /\ DOMAIN s.cache = {} /\ DOMAIN s.ended = {}

Fails(s, e) ==
    CASE e.e = "recv" -> {}
      [] e.e = "send" -> SendFails(s, e)
      [] e.e = "start" -> StartFails(s, e)
      [] e.e = "end" -> {}
      [] e.e = "kill" -> KillFails(s, e)
      [] e.e = "idle" -> IdleFails(s)
      [] e.e = "exit" -> ExitFails(s, e)
      [] e.e = "collect" -> IF s.now - s.gcAt < s.cfg.gc THEN {"memory.early"} ELSE {}
      [] e.e = "trim" -> IF s.collected THEN {} ELSE {"memory.trim"}
      [] e.e = "workers" -> IF e.n = s.cfg.n THEN {} ELSE {"options.workers"}
      [] e.e = "gone" -> IF e.n > 0 THEN {"exit.processor"} ELSE {}
      [] e.e = "bad" -> {"garbled"}
      [] e.e = "livelock" -> {"stuck"}
      [] e.e = "held" -> IF Settled(s) THEN HeldFails(s.kept, e.st, 0, e.n) ELSE {}
      [] e.e \in {"spawn", "told", "clock", "putback", "died"} -> {}
      [] OTHER -> {"?event"}

Apply(s0, e) ==
    LET s == [s0 EXCEPT !.settled = e.e \in {"idle", "clock"} /\ (s0.settled \/ e.e = "idle"),
                        !.recent = @ /\ e.e # "idle"]
    IN
    CASE e.e = "recv" -> OnRecv(s, e)
      [] e.e = "send" -> OnSend(s, e)
      [] e.e = "start" -> OnStart(s, e)
      [] e.e = "end" -> OnEnd(s, e)
      [] e.e = "kill" -> LET k == [Emptied(s) EXCEPT !.run = IF @ = e.id THEN "" ELSE @] IN IF e.id \in s.drop THEN RidOf(k, e.id, "forgotten") ELSE k
      [] e.e = "spawn" -> [Emptied(s) EXCEPT !.gcAt = s.now, !.collected = FALSE, !.died = -1]
      [] e.e = "died" -> OnDied(s, e)
      [] e.e = "collect" -> [s EXCEPT !.gcAt = s.now, !.collected = s.cfg.full]
      [] e.e = "trim" -> [s EXCEPT !.collected = FALSE]
      [] e.e = "idle" -> OnIdle(s)
      [] e.e = "told" -> [s EXCEPT !.told = TRUE]
      [] e.e = "clock" -> [s EXCEPT !.now = e.n]
      [] e.e = "putback" -> [s EXCEPT !.back = @ + e.n]
      [] e.e = "exit" -> [s EXCEPT !.over = TRUE]
      [] e.e = "held" -> IF Settled(s) THEN [s EXCEPT !.kept = Noted(@, e.st, 0, e.n)] ELSE s
      [] OTHER -> s
=============================================================================
