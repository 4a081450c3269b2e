--------------------------------- MODULE MCWire ---------------------------------
(* All messages with lists up to MaxLen and several styles of content: reading the frames back gives the message, so no two
   messages have the same frames; nothing in the contents (empty, looking like counts or types) can confuse the reader. *)
EXTENDS Wire, Json
CONSTANTS MaxLen, Printing
VARIABLE m

Styles == {"plain", "empty", "count", "type", "same"}
\* the i-th byte string of a message in a style
B(s, i) == CASE s = "plain" -> "aa" \o Byte(i) [] s = "empty" -> "" [] s = "count" -> Count(i % 4) [] s = "type" -> "44"
             [] OTHER -> "00ff"
Key(s, i) == IF s \in {"empty", "same", "type"} /\ i > 1 THEN "f0" \o Byte(i) ELSE B(s, i)   \* keys are distinct
Lst(s, n, o) == [i \in 1..n |-> B(s, o + i)]
L == 0..MaxLen
ArgTypes(n) == IF n = 0 THEN {<<>>} ELSE [1..n -> {"Data", "Task"}]
Ags(s, ty, o) == [i \in DOMAIN ty |-> <<ty[i], B(s, o + i)>>]
Numbers == {<<>>, <<1>>, <<255>>, <<0, 1>>, <<255, 255>>, <<0, 0, 1>>, <<255, 255, 255, 255>>}
Big == {<<>>, <<0, 0, 0, 0, 1>>, <<255, 255, 255, 255, 255, 255, 255, 127>>, <<255, 255, 255, 255, 255, 255, 255, 255>>}
Small == {<<>>, <<1>>, <<232, 3>>, <<255, 255>>, <<0, 0, 1>>, <<160, 134, 1>>}
Mk(k) == [Blank EXCEPT !.k = k]
ShapesOf(n) == IF n = 0 THEN {<<>>} ELSE [1..n -> L]

Messages == UNION {
    {[Mk("Task") EXCEPT !.id = B(s, 1), !.fn = B(s, 2), !.args = Ags(s, t, 3)] : s \in Styles, t \in UNION {ArgTypes(n) : n \in L}},
    {[Mk(k) EXCEPT !.id = B(s, 1), !.st = x] : s \in Styles, k \in {"TaskEcho", "GraphTaskEcho"}, x \in DOMAIN EchoStatus},
    {[Mk(k) EXCEPT !.id = B(s, 1)] : s \in Styles, k \in {"TaskCancel", "GraphTaskCancel", "DisconnectRequest", "DisconnectResponse"}},
    {[Mk("TaskResult") EXCEPT !.id = B(s, 1), !.st = x, !.dur = d, !.body = B(s, 2)] : s \in Styles, x \in DOMAIN TaskStatus,
        d \in {"00000000", "0000003f", "00007a44"}},
    {[Mk("GraphTask") EXCEPT !.id = B(s, 1), !.fns = [i \in 1..nf |-> <<Key(s, i), B(s, 20 + i), B(s, 40 + i)>>],
                             !.list = Lst(s, nt, 60),
                             !.nodes = [i \in 1..nn |-> [id |-> B(s, 80 + i), fn |-> B(s, 90 + i),
                                                         args |-> Ags(s, [j \in 1..sh[i] |-> IF (i + j) % 2 = 0 THEN "Data" ELSE "Task"], 100 + 10 * i)]]]
        : s \in Styles, nf \in L, nt \in L, nn \in L, sh \in [1..MaxLen -> L]},
    {[Mk("GraphTaskResult") EXCEPT !.id = B(s, 1), !.st = x, !.list = Lst(s, n, 5)] : s \in Styles, x \in DOMAIN TaskStatus, n \in L},
    {[Mk("BalanceRequest") EXCEPT !.n = x] : x \in Numbers},
    {[Mk("BalanceResponse") EXCEPT !.list = Lst(s, n, 5)] : s \in Styles, n \in L},
    {[Mk("Heartbeat") EXCEPT !.hb = <<c, r, <<>>, <<7>>, q, <<>>, <<>>, <<1>>, <<>>>>] : c \in Small, r \in Big, q \in Small},
    {[Mk("Heartbeat") EXCEPT !.hb = <<<<1>>, <<2>>, c, r, <<3>>, l, x, y, z>>] :
        c \in {<<>>, <<160, 134, 1>>}, r \in Big, l \in {<<>>, <<255, 255, 255, 255>>}, x \in {<<>>, <<1>>}, y \in {<<>>, <<1>>},
        z \in {<<>>, <<1>>}},
    {Mk(k) : k \in {"HeartbeatEcho", "WorkerTaskRequest"}},
    {[Mk("FunctionRequest") EXCEPT !.st = x, !.id = B(s, 1), !.name = B(s, 2), !.body = B(s, 3)] : s \in Styles, x \in DOMAIN RequestType},
    {[Mk("FunctionResponse") EXCEPT !.st = x, !.id = B(s, 1), !.name = B(s, 2), !.body = B(s, 3)] : s \in Styles, x \in DOMAIN ResponseType},
    {[Mk("SchedulerState") EXCEPT !.body = B(s, 1)] : s \in Styles},
    {[Mk("TaskState") EXCEPT !.id = B(s, 1), !.name = B(s, 2), !.st = x] : s \in Styles, x \in DOMAIN TaskStatus},
    {[Mk("GraphTaskState") EXCEPT !.id = B(s, 1), !.fn = B(s, 2), !.st = x, !.list = Lst(s, n, 5)] :
        s \in {"plain", "count"}, x \in DOMAIN NodeType, n \in L} }

Init == m \in Messages
Next == FALSE /\ UNCHANGED m
Spec == Init /\ [][Next]_m

BackAgain == Decode(Encode(m)) = m
Dump == IF Printing THEN PrintT(<<"SCHED", ToJson(m)>>) ELSE TRUE
=============================================================================
