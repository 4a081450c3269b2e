-------------------------------- MODULE Client --------------------------------
(***************************************************************************)
(* One client as seen by the threads that use it and by the scheduler it   *)
(* is connected to.                                                        *)
(*                                                                         *)
(* Events:  call / ret   a user thread calls submit, map, get, disconnect  *)
(*          ucancel      the user cancels a future (n = 1: but it was late)*)
(*          done         a future is resolved (val says how)               *)
(*          send / recv  a message at the client's socket                  *)
(*          idle         nothing more happens without outside stimulus     *)
(*          exit         the client's connector thread ended               *)
(* Submissions, maps and graphs are named by the harness; their arguments  *)
(* and data carry the name, so messages can be traced back to them.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Held

NoFun == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f
Cnt(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Dec(f, k) == IF Cnt(f, k) <= 1 THEN Del(f, k) ELSE [f EXCEPT ![k] = @ - 1]
Range2(q) == {q[i] : i \in DOMAIN q}
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p

Gone == "x:ScaledDisconnect"

(***************************************************************************)
(*  sub   submission -> its function, arguments, the call it belongs to    *)
(*        (itself or a map), sending state, reported outcome               *)
(*  gr    graph call -> nodes, keys, whether it was sent, its outcome      *)
(*  pend  calls in progress                                                *)
(*  done  future -> how it was resolved                                    *)
(*  wd    futures the user withdrew                                        *)
(*  fut   futures handed to the user                                       *)
(*  ask   function -> uploads not acknowledged                             *)
(*  ackd  functions acknowledged                                           *)
(*  disc  "no", "asked" (disconnect called), "done" (disconnect returned)  *)
(***************************************************************************)
InitState(cfg) ==
    [sub |-> NoFun, gr |-> NoFun, pend |-> NoFun, done |-> NoFun, wd |-> {}, fut |-> {}, ask |-> NoFun, ackd |-> {},
     disc |-> "no", over |-> FALSE, kept |-> NoFun]

NoOut == [st |-> "", val |-> "", res |-> <<>>]
NewSub(fn, args, of, known) ==
    [fn |-> fn, args |-> args, of |-> of, sent |-> FALSE, fresh |-> known, can |-> FALSE, acc |-> FALSE, out |-> NoOut]

Failing(o) == o.st # "" /\ o.st # "Success"
(* a blocking call that fails disconnects the client *)
FailingCall(s, c) ==
    /\ s.pend[c].k \in {"map", "getb"}
    /\ IF s.pend[c].k = "map" THEN \E x \in Range2(s.pend[c].subs) : Has(s.sub, x) /\ Failing(s.sub[x].out)
       ELSE Failing(s.gr[c].out)
Leaving(s) == s.disc # "no" \/ \E c \in DOMAIN s.pend : FailingCall(s, c)

(***************************************************************************)
(* The value of a graph's node                                             *)
(***************************************************************************)
NodeOf(g, n) == CHOOSE x \in Range2(g.nodes) : x.name = n
RECURSIVE Val(_, _), Join(_, _, _)
Join(g, q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ",") \o Val(g, q[i]) \o Join(g, q, i + 1)
Val(g, n) == LET x == NodeOf(g, n) IN IF x.fn = "" THEN x.args[1] ELSE x.fn \o "(" \o Join(g, x.args, 1) \o ")"
KeyVals(g) == [i \in DOMAIN g.keys |-> Val(g, g.keys[i])]
FutOf(c, k) == c \o "/" \o k
Futs(s, c) == {FutOf(c, k) : k \in Range2(s.gr[c].keys)}
GraphFut(s, f) == {c \in DOMAIN s.gr : f \in Futs(s, c)}
KeyOf(s, c, f) == CHOOSE k \in Range2(s.gr[c].keys) : FutOf(c, k) = f

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
MapArgs(e, x) == IF e.nodes = <<>> THEN <<x \o ".a0">> ELSE (CHOOSE n \in Range2(e.nodes) : n.name = x).args

OnCall(s, e) ==
    CASE e.k = "submit" -> [s EXCEPT !.sub = Put(@, e.id, NewSub(e.fn, e.args, e.id, e.fn \in s.ackd)),
                                     !.pend = Put(@, e.id, [k |-> "submit", subs |-> <<e.id>>, late |-> s.disc = "done", bad |-> e.n = 1])]
      [] e.k = "map" ->
            LET add == [x \in Range2(e.keys) |-> NewSub(e.fn, MapArgs(e, x), e.id, e.fn \in s.ackd)] IN
            [s EXCEPT !.sub = [x \in DOMAIN @ \cup DOMAIN add |-> IF Has(@, x) THEN @[x] ELSE add[x]],
                      !.pend = Put(@, e.id, [k |-> "map", subs |-> e.keys, late |-> s.disc = "done", bad |-> e.n = 1])]
      [] e.k = "get" ->
            [s EXCEPT !.gr = Put(@, e.id, [nodes |-> e.nodes, keys |-> e.keys, sent |-> FALSE, can |-> FALSE, out |-> NoOut,
                                           block |-> e.n = 1, valid |-> e.st = ""]),
                      !.pend = Put(@, e.id, [k |-> IF e.n = 1 THEN "getb" ELSE "get", subs |-> <<>>, late |-> s.disc = "done"])]
      [] e.k = "disconnect" -> [s EXCEPT !.disc = IF @ = "no" THEN "asked" ELSE @]
      [] OTHER -> s

(* what a failing call raises *)
RaiseOk(s, outs, v) ==
    \/ \E o \in outs : o.st = "Failed" /\ v = o.val
    \/ \E o \in outs : o.st \in {"Undecodable", "Canceled", "NotFound", "NoWorker"} /\ Starts(v, "x:")
    \/ v = Gone /\ s.disc # "no"
    \/ v = Gone /\ \E c \in DOMAIN s.pend : FailingCall(s, c)

RetFails(s, e) ==
    LET c == e.id p == s.pend[c] IN
    CASE e.k = "submit" -> IF e.st = "raised" THEN IF p.bad \/ Leaving(s) THEN {} ELSE {"call.raised"}
                           ELSE IF p.bad THEN {"call.accepted"} ELSE IF p.late THEN {"late.accepted"} ELSE {}
      [] e.k = "map" ->
            LET outs == [i \in DOMAIN p.subs |-> s.sub[p.subs[i]].out] IN
            IF p.bad THEN IF e.st = "raised" /\ Starts(e.val, "x:TypeError") THEN {} ELSE {"map.accepted"}
            ELSE IF e.st = "raised" THEN IF RaiseOk(s, Range2(outs), e.val) THEN {} ELSE {"map.raised"}
            ELSE IF p.late /\ p.subs # <<>> THEN {"late.accepted"}
            ELSE IF e.res = [i \in DOMAIN p.subs |-> outs[i].val] /\ \A i \in DOMAIN outs : outs[i].st = "Success"
                 THEN {} ELSE {"map.wrong"}
      [] e.k = "get" ->
            LET g == s.gr[c] IN
            IF ~g.valid THEN IF e.st = "raised" THEN {} ELSE {"graph.accepted"}
            ELSE IF e.st = "badkeys" THEN {"graph.keys"}
            ELSE IF e.st = "raised"
            THEN IF g.block THEN IF RaiseOk(s, {g.out}, e.val) \/ (e.val = Gone /\ Leaving(s)) THEN {} ELSE {"graph.raised"}
                 ELSE IF Leaving(s) THEN {} ELSE {"graph.raised"}
            ELSE IF p.late /\ g.keys # <<>> THEN {"late.accepted"}
            ELSE IF ~g.block THEN {}
            ELSE IF e.res = [i \in DOMAIN g.keys |-> "v:" \o Val(g, g.keys[i])] /\ (g.keys = <<>> \/ g.out.st = "Success")
                 THEN {} ELSE {"graph.wrong"}
      [] OTHER -> {}

OnRet(s, e) ==
    CASE e.k = "disconnect" -> [s EXCEPT !.disc = "done"]
      [] e.k = "submit" -> [s EXCEPT !.pend = Del(@, e.id), !.fut = IF e.st = "ok" THEN @ \cup {e.id} ELSE @,
                                     !.sub = IF e.st = "raised" /\ ~@[e.id].sent THEN Del(@, e.id) ELSE @]
      [] e.k = "map" ->
            [s EXCEPT !.pend = Del(@, e.id), !.disc = IF e.st = "raised" /\ ~s.pend[e.id].bad THEN "done" ELSE @,
                      !.sub = IF e.st = "raised" /\ s.pend[e.id].bad THEN [x \in {y \in DOMAIN @ : @[y].of # e.id \/ @[y].sent} |-> @[x]] ELSE @]
      [] e.k = "get" ->
            [s EXCEPT !.pend = Del(@, e.id),
                      !.disc = IF e.st = "raised" /\ s.gr[e.id].block /\ s.gr[e.id].out.st # "" THEN "done" ELSE @,
                      !.fut = IF e.st = "ok" /\ ~s.gr[e.id].block THEN @ \cup Futs(s, e.id) ELSE @,
                      !.gr = IF e.st = "raised" /\ ~@[e.id].sent THEN Del(@, e.id) ELSE @]
      [] OTHER -> s

(***************************************************************************)
(* Messages                                                                *)
(***************************************************************************)
OnRecv(s, e) ==
    CASE e.k = "FunctionResponse" -> [s EXCEPT !.ask = Dec(@, e.id), !.ackd = @ \cup {e.id},
            !.sub = [x \in DOMAIN @ |-> IF @[x].fn = e.id /\ ~@[x].sent THEN [@[x] EXCEPT !.fresh = TRUE] ELSE @[x]]]
      [] e.k = "TaskEcho" /\ Has(s.sub, e.id) ->
            LET x == s.sub[e.id] IN
            CASE ~x.sent \/ x.acc \/ x.out.st # "" -> s
              [] e.st = "FunctionNotExists" -> [s EXCEPT !.sub[e.id] = [@ EXCEPT !.sent = FALSE, !.fresh = FALSE]]
              [] e.st = "NoWorker" -> [s EXCEPT !.sub[e.id].out = [NoOut EXCEPT !.st = "NoWorker"]]
              [] e.st = "SubmitOK" -> [s EXCEPT !.sub[e.id].acc = TRUE]
              [] OTHER -> s
      [] e.k = "TaskResult" /\ Has(s.sub, e.id) /\ s.sub[e.id].out.st = "" ->
            [s EXCEPT !.sub[e.id].out = [st |-> e.st, val |-> e.val, res |-> <<>>]]
      [] e.k = "GraphTaskResult" /\ Has(s.gr, e.id) /\ s.gr[e.id].out.st = "" ->
            [s EXCEPT !.gr[e.id].out = [st |-> e.st, val |-> IF e.res = <<>> THEN "" ELSE e.res[1], res |-> e.res]]
      [] OTHER -> s

SendFails(s, e) ==
    IF s.over THEN {"sent.late"} ELSE
    CASE e.k = "FunctionRequest" -> IF e.n = 1 THEN {"upload.wrong"} ELSE {}
      [] e.k = "Task" ->
            IF ~Has(s.sub, e.id) THEN {"task.unknown"}
            ELSE LET x == s.sub[e.id] IN UNION {
                IF x.sent THEN {"task.repeated"} ELSE {},
                IF x.fresh THEN {} ELSE {"task.unacked"},
                IF x.fn = e.fn THEN {} ELSE {"task.function"},
                IF x.args = e.args THEN {} ELSE {"task.args"},
                IF e.n = 1 THEN {"task.sameid"} ELSE {},
                IF x.can THEN {"task.late"} ELSE {},
                IF Has(s.pend, x.of) /\ s.pend[x.of].bad THEN {"map.submitted"} ELSE {} }
      [] e.k = "TaskCancel" ->
            IF ~Leaving(s) THEN {"cancel.early"}
            ELSE IF e.id = "?" THEN IF \E x \in DOMAIN s.sub : ~s.sub[x].sent THEN {} ELSE {"cancel.unknown"}
            ELSE UNION {IF s.sub[e.id].out.st # "" /\ e.id \notin s.wd THEN {"cancel.finished"} ELSE {},
                        IF s.sub[e.id].can THEN {"cancel.repeated"} ELSE {}}
      [] e.k = "GraphTask" ->
            IF ~Has(s.gr, e.id) THEN {"graph.unknown"}
            ELSE LET g == s.gr[e.id] IN UNION {
                IF ~g.valid THEN {"graph.accepted"} ELSE {},
                IF g.sent THEN {"graph.repeated"} ELSE {},
                IF g.can THEN {"graph.late"} ELSE {},
                IF e.n = 1 THEN {"graph.sameid"} ELSE {},
                \* every requested value is asked for and nothing else
                IF g.valid /\ Range2(e.res) # Range2(KeyVals(g)) THEN {"graph.malformed"} ELSE {} }
      [] e.k = "GraphTaskCancel" ->
            IF ~Leaving(s) THEN {"cancel.early"}
            ELSE IF e.id = "?" THEN IF \E c \in DOMAIN s.gr : ~s.gr[c].sent THEN {} ELSE {"cancel.unknown"}
            ELSE UNION {IF s.gr[e.id].out.st # "" THEN {"cancel.finished"} ELSE {},
                        IF s.gr[e.id].can THEN {"cancel.repeated"} ELSE {}}
      [] OTHER -> {"unexpected." \o e.k}

OnSend(s, e) ==
    CASE e.k = "FunctionRequest" -> [s EXCEPT !.ask = Put(@, e.id, Cnt(@, e.id) + 1)]
      [] e.k = "Task" -> [s EXCEPT !.sub[e.id] = [@ EXCEPT !.sent = TRUE]]
      [] e.k = "TaskCancel" /\ e.id # "?" -> [s EXCEPT !.sub[e.id].can = TRUE]
      [] e.k = "GraphTask" -> [s EXCEPT !.gr[e.id].sent = TRUE]
      [] e.k = "GraphTaskCancel" /\ e.id # "?" -> [s EXCEPT !.gr[e.id].can = TRUE]
      [] OTHER -> s

(***************************************************************************)
(* Futures                                                                 *)
(***************************************************************************)
Tells(o, v) == \* does v say what was reported?
    CASE o.st \in {"Success", "Failed"} -> v = o.val
      [] o.st \in {"Undecodable", "NoWorker"} -> Starts(v, "x:")
      [] o.st \in {"Canceled", "NotFound"} -> Starts(v, "x:") \/ v = "cancelled"
      [] OTHER -> FALSE

DoneFails(s, e) ==
    IF Has(s.done, e.id) THEN {"done.repeated"}
    ELSE IF e.val = "cancelled" /\ e.id \in s.wd THEN {}
    ELSE IF Has(s.sub, e.id)
    THEN LET o == s.sub[e.id].out IN
         IF Tells(o, e.val) THEN {}
         ELSE IF e.val = Gone THEN IF ~Leaving(s) THEN {"done.early"} ELSE IF o.st # "" THEN {"done.lost"} ELSE {}
         ELSE IF o.st = "" THEN {"done.unreported"} ELSE {"done.wrong"}
    ELSE IF GraphFut(s, e.id) # {}
    THEN LET c == CHOOSE x \in GraphFut(s, e.id) : TRUE
             o == s.gr[c].out
         IN  IF o.st = "Success" THEN IF e.val = "v:" \o Val(s.gr[c], KeyOf(s, c, e.id)) THEN {} ELSE {"graph.wrong"}
             ELSE IF Tells(o, e.val) THEN {}
             \* the keys whose values can be decoded may get them
             ELSE IF o.st = "Undecodable" /\ e.val = "v:" \o Val(s.gr[c], KeyOf(s, c, e.id)) THEN {}
             ELSE IF e.val = Gone THEN IF ~Leaving(s) THEN {"done.early"} ELSE IF o.st # "" THEN {"done.lost"} ELSE {}
             ELSE IF o.st = "" THEN {"done.unreported"} ELSE {"graph.wrong"}
    ELSE {"done.unknown"}

(***************************************************************************)
(* Idle points and the end                                                 *)
(***************************************************************************)
Open(s) == {f \in s.fut : ~Has(s.done, f) /\ f \notin s.wd}
OutOf(s, f) == IF Has(s.sub, f) THEN s.sub[f].out ELSE s.gr[CHOOSE x \in GraphFut(s, f) : TRUE].out
Waits(s, c) == \* may this call still be in progress?
    CASE s.pend[c].k = "map" -> \E x \in Range2(s.pend[c].subs) : s.sub[x].out.st = ""
      [] s.pend[c].k = "getb" -> s.gr[c].keys # <<>> /\ s.gr[c].out.st = ""
      [] OTHER -> FALSE

IdleFails(s) ==
    LET gone == s.disc = "done" IN UNION {
        IF gone /\ ~s.over THEN {"exit.missing"} ELSE {},
        IF gone /\ Open(s) # {} THEN {"late.unresolved"} ELSE {},
        IF \E f \in Open(s) : OutOf(s, f).st # "" THEN {"missing.done"} ELSE {},
        IF \E c \in DOMAIN s.pend : gone \/ ~Waits(s, c) THEN {"stuck"} ELSE {},
        IF ~gone /\ \E x \in DOMAIN s.sub : ~s.sub[x].sent /\ s.sub[x].out.st = "" /\ Cnt(s.ask, s.sub[x].fn) = 0
                    /\ (s.sub[x].of = x \/ Has(s.pend, s.sub[x].of))
        THEN {"missing.Task"} ELSE {},
        IF ~gone /\ \E c \in DOMAIN s.gr : ~s.gr[c].sent /\ s.gr[c].keys # <<>> THEN {"missing.GraphTask"} ELSE {},
        IF gone /\ \E x \in DOMAIN s.sub : s.sub[x].sent /\ ~s.sub[x].can /\ s.sub[x].out.st = ""
                    /\ (IF Has(s.done, x) THEN s.done[x] = Gone ELSE TRUE)
        THEN {"missing.TaskCancel"} ELSE {},
        IF gone /\ \E c \in DOMAIN s.gr : s.gr[c].sent /\ ~s.gr[c].can /\ s.gr[c].out.st = "" /\ s.gr[c].keys # <<>>
        THEN {"missing.GraphTaskCancel"} ELSE {} }

\* nothing of finished calls remains: everything is resolved and nothing is being sent
Settled(s) == DOMAIN s.pend = {} /\ Open(s) = {} /\ DOMAIN s.ask = {} /\ s.disc = "no"
             /\ \A f \in s.fut : OutOf(s, f).st # ""

Fails(s, e) ==
    CASE e.e \in {"call", "ucancel", "recv"} -> {}
      [] e.e = "ret" -> IF e.k = "disconnect" THEN {} ELSE RetFails(s, e)
      [] e.e = "send" -> SendFails(s, e)
      [] e.e = "done" -> DoneFails(s, e)
      [] e.e = "idle" -> IdleFails(s)
      [] e.e = "exit" -> IF e.st = "crash" THEN {"crashed"} ELSE IF ~Leaving(s) THEN {"exit.early"} ELSE {}
      [] e.e = "bad" -> {"garbled"}
      [] e.e = "livelock" -> {"livelock"}
      [] e.e = "held" -> IF Settled(s) THEN HeldFails(s.kept, "", Cardinality(s.ackd), e.n) ELSE {}
      [] OTHER -> {"?event"}

Apply(s, e) ==
    CASE e.e = "call" -> OnCall(s, e)
      [] e.e = "ret" -> OnRet(s, e)
      [] e.e = "ucancel" -> [s EXCEPT !.wd = IF e.n = 1 THEN @ \ {e.id} ELSE @ \cup {e.id}]
      [] e.e = "recv" -> OnRecv(s, e)
      [] e.e = "send" -> OnSend(s, e)
      [] e.e = "done" -> [s EXCEPT !.done = Put(@, e.id, e.val)]
      [] e.e = "exit" -> [s EXCEPT !.over = TRUE]
      [] e.e = "held" -> IF Settled(s) THEN [s EXCEPT !.kept = Noted(@, "", Cardinality(s.ackd), e.n)] ELSE s
      [] OTHER -> s
=============================================================================
