-------------------------------- MODULE System --------------------------------
(***************************************************************************)
(* Clients, scheduler and workers together, as their users see them: the   *)
(* calls of users and what they return, and the user functions that run.   *)
(*                                                                         *)
(* An expression x names the invocation of a function on its arguments,    *)
(* e.g. g(f(c1g5.d1),c1g5.d1): arguments carry the name of the submission  *)
(* or graph, a function that returns returns its expression, one that      *)
(* raises raises UserError("e." x).                                        *)
(*                                                                         *)
(* Events:  join / leave / crash / silent / heal   a worker                *)
(*          lost         a client's process is gone                        *)
(*          call / ret   a user calls submit, map, get, disconnect         *)
(*          ucancel      the user cancels a future                         *)
(*          done         a future is resolved                              *)
(*          start / end / killed   an invocation on a worker               *)
(*          exit         a component ended                                 *)
(*          idle         all messages arrived (except those of silent      *)
(*                       workers) and nothing happens without outside      *)
(*                       stimulus                                          *)
(*          rest         idle, every function returned, all timeouts       *)
(*                       passed, with the scheduler's status report        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

NoFun == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Has(f, k) == k \in DOMAIN f
Range2(q) == {q[i] : i \in DOMAIN q}
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
Gone == "x:ScaledDisconnect"
Blocking == {"map", "getb"}
Odd == {"badret", "badexc"}   \* ways to end that fail with some exception

(***************************************************************************)
(*  st     clients that left: "asked" (disconnect called or a blocking     *)
(*         call failed), "swept" (and everything came to rest), "lost"     *)
(*  call   call -> client, kind, futures with their expressions, all       *)
(*         expressions it needs; open until it returns                     *)
(*  fut    future -> its call and expression                               *)
(*  of     expression -> its call                                          *)
(*  ran    expression -> how its invocations ended                         *)
(*  began  expression -> workers that started it                           *)
(*  run    invocations in progress <<worker, expression>>                  *)
(*  up     workers;  silent  those nobody hears;  mute  ever silent;       *)
(*         sick  ever silent, told to leave or gone                        *)
(***************************************************************************)
InitState(cfg) ==
    [cfg |-> cfg, st |-> NoFun, call |-> NoFun, fut |-> NoFun, of |-> NoFun, ran |-> NoFun, began |-> NoFun, run |-> {},
     up |-> {}, silent |-> {}, mute |-> {}, sick |-> {}, done |-> NoFun, wd |-> {}]

Client(s, x) == s.call[s.of[x]].c
Ended(s, x, kinds) == Has(s.ran, x) /\ s.ran[x] \cap kinds # {}
Failure(s, c, v) == \* is v the failure of an invocation call c needs?
    \E y \in Range2(s.call[c].need) :
        \/ Ended(s, y, {"raise"}) /\ v = "x:UserError:e." \o y
        \/ Ended(s, y, Odd) /\ Starts(v, "x:")
Value(s, x, v) == v = "v:" \o x /\ Ended(s, x, {"ret"})

\* a blocking call that fails disconnects the client
Failing(s, c) == s.call[c].open /\ s.call[c].k \in Blocking
                 /\ \E y \in Range2(s.call[c].need) : Ended(s, y, Odd \cup {"raise"})
Left(s, c) == Has(s.st, c)
Leaving(s, c) == Left(s, c) \/ \E i \in DOMAIN s.call : s.call[i].c = c /\ Failing(s, i)

OnCall(s, e) ==
    IF e.k = "disconnect" THEN [s EXCEPT !.st = IF Left(s, e.c) THEN @ ELSE Put(@, e.c, "asked")]
    ELSE LET k == IF e.k = "get" /\ e.n = 1 THEN "getb" ELSE e.k
             F == {f[1] : f \in Range2(e.futs)}
             X == Range2(e.need)
         IN  [s EXCEPT !.call = Put(@, e.id, [c |-> e.c, k |-> k, futs |-> e.futs, need |-> e.need, open |-> TRUE,
                                              late |-> Left(s, e.c), raised |-> FALSE,
                                              hit |-> s.mute \cap s.up # {}]),
                       !.fut = [f \in DOMAIN @ \cup F |-> IF Has(@, f) THEN @[f]
                                  ELSE [call |-> e.id, x |-> (CHOOSE p \in Range2(e.futs) : p[1] = f)[2]]],
                       !.of = [x \in DOMAIN @ \cup X |-> IF Has(@, x) THEN @[x] ELSE e.id]]

RetFails(s, e) ==
    IF e.k = "disconnect" THEN {}
    ELSE LET c == e.id r == s.call[c] IN
        IF e.st = "raised"
        THEN IF r.k \in Blocking
             THEN IF Failure(s, c, e.val) \/ (e.val = Gone /\ Leaving(s, r.c)) THEN {} ELSE {"outcome.wrong"}
             ELSE IF Leaving(s, r.c) THEN {} ELSE {"outcome.raised"}
        ELSE IF r.k \in Blocking
             THEN IF Len(e.res) = Len(r.futs) /\ \A i \in DOMAIN e.res : Value(s, r.futs[i][2], e.res[i])
                  THEN {} ELSE {"outcome.wrong"}
             ELSE {}

OnRet(s, e) ==
    IF e.k = "disconnect" THEN s
    ELSE LET r == s.call[e.id] IN
        [s EXCEPT !.call[e.id] = [@ EXCEPT !.open = FALSE, !.raised = e.st = "raised"],
                  !.st = IF e.st = "raised" /\ r.k \in Blocking /\ ~Left(s, r.c) THEN Put(@, r.c, "asked") ELSE @]

DoneFails(s, e) ==
    IF Has(s.done, e.id) THEN {"outcome.repeated"}
    ELSE LET f == s.fut[e.id] IN
        IF e.val = "cancelled" /\ e.id \in s.wd THEN {}
        ELSE IF Value(s, f.x, e.val) \/ Failure(s, f.call, e.val) THEN {}
        ELSE IF e.val = Gone /\ Leaving(s, s.call[f.call].c) THEN {}
        ELSE {"outcome.wrong"}

StartFails(s, e) ==
    IF ~Has(s.of, e.x) THEN {"start.unknown"}
    ELSE LET n == Cardinality({i \in DOMAIN s.call[s.of[e.x]].need : s.call[s.of[e.x]].need[i] = e.x})
             before == IF Has(s.began, e.x) THEN s.began[e.x] ELSE <<>>
         IN UNION {
            IF \E r \in s.run : r[1] = e.w THEN {"start.concurrent"} ELSE {},
            IF e.w \notin s.up THEN {"start.gone"} ELSE {},
            \* once a client that left was swept up, nothing of it begins on a worker in good health
            IF Left(s, Client(s, e.x)) /\ s.st[Client(s, e.x)] = "swept" /\ e.w \notin s.sick THEN {"left.start"} ELSE {},
            \* an invocation is only repeated because a worker was lost; one that was silent may hand back
            \* what others have got by now
            IF Len(before) >= n /\ ~s.call[s.of[e.x]].hit /\ (Range2(before) \cup {e.w}) \cap s.sick = {} THEN {"start.again"} ELSE {} }

\* futures that should be resolved some time
Waiting(s) == {f \in DOMAIN s.fut : LET r == s.call[s.fut[f].call] IN
                 /\ ~Left(s, r.c) /\ ~Has(s.done, f) /\ f \notin s.wd
                 /\ (r.k \in Blocking => r.open) /\ ~r.raised}
IdleFails(s) == UNION {
    IF \E r \in s.run : LET c == Client(s, r[2]) IN
           Left(s, c) /\ s.st[c] # "lost" /\ r[1] \notin s.sick THEN {"left.running"} ELSE {},
    IF \E f \in DOMAIN s.fut : LET r == s.call[s.fut[f].call] IN
           Left(s, r.c) /\ s.st[r.c] # "lost" /\ r.k \notin Blocking /\ ~r.raised /\ ~Has(s.done, f) /\ f \notin s.wd
    THEN {"left.unresolved"} ELSE {},
    IF Waiting(s) # {} /\ s.up # {} /\ s.sick = {} /\ s.run = {} THEN {"stalled"} ELSE {} }

RestFails(s, e) == UNION {
    IF Waiting(s) # {} THEN {"rest.waiting"} ELSE {},
    IF \E i \in DOMAIN s.call : s.call[i].open /\ ~Left(s, s.call[i].c) THEN {"rest.call"} ELSE {},
    IF e.tasks # <<0, 0>> \/ (\E n \in Range2(e.need) : n # 0) THEN {"rest.tasks"} ELSE {},
    IF \E p \in Range2(e.res) : p # <<s.cfg.limit, 0>> THEN {"rest.slots"} ELSE {},
    IF Len(e.res) # Cardinality(s.up) THEN {"rest.workers"} ELSE {} }

ExitFails(s, e) ==
    CASE e.k = "worker" -> IF e.st = "ok" /\ e.w \in s.sick THEN {} ELSE {"crashed"}
      [] e.k = "client" -> IF e.st = "ok" /\ Leaving(s, e.c) THEN {} ELSE {"crashed"}
      [] OTHER -> {"crashed"}

Fails(s, e) ==
    CASE e.e = "ret" -> RetFails(s, e)
      [] e.e = "done" -> DoneFails(s, e)
      [] e.e = "start" -> StartFails(s, e)
      [] e.e = "end" -> IF <<e.w, e.x>> \in s.run THEN {} ELSE {"?end"}
      [] e.e = "idle" -> IdleFails(s)
      [] e.e = "rest" -> RestFails(s, e)
      [] e.e = "exit" -> ExitFails(s, e)
      [] e.e = "bad" -> {"garbled"}
      [] e.e = "livelock" -> {"livelock"}
      [] OTHER -> {}

Apply(s, e) ==
    CASE e.e = "join" -> [s EXCEPT !.up = @ \cup {e.w}]
      [] e.e = "leave" -> [s EXCEPT !.sick = @ \cup {e.w}]
      [] e.e = "silent" -> [s EXCEPT !.sick = @ \cup {e.w}, !.silent = @ \cup {e.w}, !.mute = @ \cup {e.w},
                                     !.call = [i \in DOMAIN @ |-> [@[i] EXCEPT !.hit = TRUE]]]
      [] e.e = "heal" -> [s EXCEPT !.silent = @ \ {e.w}]
      [] e.e = "crash" -> [s EXCEPT !.sick = @ \cup {e.w}, !.silent = @ \ {e.w}, !.up = @ \ {e.w}]
      [] e.e = "exit" /\ e.k = "worker" -> [s EXCEPT !.up = @ \ {e.w}, !.silent = @ \ {e.w}]
      [] e.e = "lost" -> [s EXCEPT !.st = Put(@, e.c, "lost")]
      [] e.e = "call" -> OnCall(s, e)
      [] e.e = "ret" -> OnRet(s, e)
      [] e.e = "ucancel" -> [s EXCEPT !.wd = @ \cup {e.id}]
      [] e.e = "done" -> [s EXCEPT !.done = Put(@, e.id, e.val)]
      [] e.e = "start" -> [s EXCEPT !.run = @ \cup {<<e.w, e.x>>},
                                    !.began = Put(@, e.x, Append(IF Has(@, e.x) THEN @[e.x] ELSE <<>>, e.w))]
      [] e.e = "end" -> [s EXCEPT !.run = @ \ {<<e.w, e.x>>},
                                  !.ran = Put(@, e.x, (IF Has(@, e.x) THEN @[e.x] ELSE {}) \cup {e.st})]
      [] e.e = "killed" -> [s EXCEPT !.run = @ \ {<<e.w, e.x>>}]
      [] e.e = "idle" -> [s EXCEPT !.st = [c \in DOMAIN @ |-> IF @[c] = "asked" THEN "swept" ELSE @[c]]]
      [] OTHER -> s
=============================================================================
