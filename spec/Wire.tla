---------------------------------- MODULE Wire ----------------------------------
(***************************************************************************)
(* The frames of every message of the protocol.                            *)
(* Byte strings are hexadecimal text; numbers are their base 256 digits,   *)
(* least significant first, without trailing zeros.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Code == [Task |-> "544b", TaskEcho |-> "5445", TaskCancel |-> "5443", TaskResult |-> "5452", GraphTask |-> "4754",
         GraphTaskEcho |-> "4745", GraphTaskCancel |-> "4743", GraphTaskResult |-> "4752", BalanceRequest |-> "4251",
         BalanceResponse |-> "4252", Heartbeat |-> "4842", HeartbeatEcho |-> "4845", FunctionRequest |-> "4652",
         FunctionResponse |-> "4641", DisconnectRequest |-> "4452", DisconnectResponse |-> "4450",
         WorkerTaskRequest |-> "5049", SchedulerState |-> "5353", TaskState |-> "5453", GraphTaskState |-> "4753"]
Kinds == DOMAIN Code
TaskStatus == [Inactive |-> "49", Running |-> "52", Canceling |-> "58", Success |-> "53", Failed |-> "46", Canceled |-> "43",
               NotFound |-> "4e"]
EchoStatus == [SubmitOK |-> "534b", CancelOK |-> "434b", CancelFailed |-> "4346", Duplicated |-> "4443", NoWorker |-> "4e57",
               FunctionNotExists |-> "464e"]
RequestType == [Check |-> "43", Add |-> "41", Request |-> "52", Delete |-> "44"]
ResponseType == [OK |-> "4f4b", NotExists |-> "4e45", StillHaveTask |-> "4854", Duplicated |-> "4443"]
NodeType == [Normal |-> "4e", Target |-> "54"]
ArgType == [Data |-> "44", Task |-> "54"]
StatusOf(k) == CASE k \in {"TaskEcho", "GraphTaskEcho"} -> EchoStatus
                 [] k \in {"TaskResult", "GraphTaskResult", "TaskState"} -> TaskStatus
                 [] k = "FunctionRequest" -> RequestType
                 [] k = "FunctionResponse" -> ResponseType
                 [] k = "GraphTaskState" -> NodeType
                 [] OTHER -> [none |-> ""]
Inverse2(f, v) == IF \E x \in DOMAIN f : f[x] = v THEN CHOOSE x \in DOMAIN f : f[x] = v ELSE "?"

(***************************************************************************)
(* Numbers                                                                 *)
(***************************************************************************)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Byte(b) == Hex[(b \div 16) + 1] \o Hex[(b % 16) + 1]
RECURSIVE Pad(_, _), Digits(_), Parse(_), Trim(_)
Pad(d, w) == IF w = 0 THEN "" ELSE IF d = <<>> THEN "00" \o Pad(d, w - 1) ELSE Byte(Head(d)) \o Pad(Tail(d), w - 1)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o Digits(n \div 256)
Nibble(c) == (CHOOSE i \in 1..16 : Hex[i] = c) - 1
Parse(h) == IF Len(h) < 2 THEN <<>> ELSE <<Nibble(SubSeq(h, 1, 1)) * 16 + Nibble(SubSeq(h, 2, 2))>> \o Parse(SubSeq(h, 3, Len(h)))
Trim(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
Num(h) == Trim(Parse(h))
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE Head(d) + 256 * Value(Tail(d))
Count(n) == Pad(Digits(n), 4)

(***************************************************************************)
(* Messages                                                                *)
(***************************************************************************)
Blank == [k |-> "", id |-> "", fn |-> "", name |-> "", body |-> "", st |-> "", n |-> <<>>, dur |-> "", args |-> <<>>,
          fns |-> <<>>, list |-> <<>>, nodes |-> <<>>, hb |-> <<>>]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
Map1(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]

TaskFrames(t) == <<t.id, t.fn>> \o Flat([i \in DOMAIN t.args |-> <<ArgType[t.args[i][1]], t.args[i][2]>>])
HbFrame(hb) == Pad(hb[1], 4) \o "00000000" \o Pad(hb[2], 8) \o Pad(hb[3], 4) \o "00000000" \o Pad(hb[4], 8) \o Pad(hb[5], 4)
               \o Pad(hb[6], 4) \o Pad(hb[7], 1) \o Pad(hb[8], 1) \o Pad(hb[9], 1)

Encode(m) ==
    LET st == StatusOf(m.k)[m.st] IN
    <<Code[m.k]>> \o
    CASE m.k = "Task" -> TaskFrames(m)
      [] m.k \in {"TaskEcho", "GraphTaskEcho"} -> <<m.id, st>>
      [] m.k \in {"TaskCancel", "GraphTaskCancel", "DisconnectRequest", "DisconnectResponse"} -> <<m.id>>
      [] m.k = "TaskResult" -> <<m.id, st, m.dur, m.body>>
      [] m.k = "GraphTask" ->
            <<m.id, Count(Len(m.fns))>> \o Map1(m.fns, LAMBDA x : x[1]) \o Map1(m.fns, LAMBDA x : x[2])
            \o Map1(m.fns, LAMBDA x : x[3]) \o <<Count(Len(m.list))>> \o m.list
            \o Flat(Map1(m.nodes, LAMBDA t : <<Count(2 + 2 * Len(t.args))>> \o TaskFrames(t)))
      [] m.k = "GraphTaskResult" -> <<m.id, st>> \o m.list
      [] m.k = "BalanceRequest" -> <<Pad(m.n, 4)>>
      [] m.k = "BalanceResponse" -> <<Count(Len(m.list))>> \o m.list
      [] m.k = "Heartbeat" -> <<HbFrame(m.hb)>>
      [] m.k \in {"HeartbeatEcho", "WorkerTaskRequest"} -> <<"">>
      [] m.k \in {"FunctionRequest", "FunctionResponse"} -> <<st, m.id, m.name, m.body>>
      [] m.k = "SchedulerState" -> <<m.body>>
      [] m.k = "TaskState" -> <<m.id, m.name, st>>
      [] m.k = "GraphTaskState" -> <<m.id, m.fn, st>> \o m.list

(***************************************************************************)
(* Reading them back                                                       *)
(***************************************************************************)
Sub(q, a, b) == SubSeq(q, a, b)
Args(q) == [i \in 1..(Len(q) \div 2) |-> <<Inverse2(ArgType, q[2 * i - 1]), q[2 * i]>>]
Node(q) == [id |-> q[1], fn |-> q[2], args |-> Args(Sub(q, 3, Len(q)))]
RECURSIVE Nodes(_)
Nodes(q) == IF q = <<>> THEN <<>>
            ELSE LET n == Value(Num(q[1])) IN <<Node(Sub(q, 2, 1 + n))>> \o Nodes(Sub(q, 2 + n, Len(q)))
Field(h, at, w) == Num(SubSeq(h, 2 * at + 1, 2 * (at + w)))

Decode(f) ==
    LET k == Inverse2(Code, f[1]) d == Tail(f) b == [Blank EXCEPT !.k = k]
        st(i) == Inverse2(StatusOf(k), d[i]) IN
    CASE k = "Task" -> [b EXCEPT !.id = d[1], !.fn = d[2], !.args = Args(Sub(d, 3, Len(d)))]
      [] k \in {"TaskEcho", "GraphTaskEcho"} -> [b EXCEPT !.id = d[1], !.st = st(2)]
      [] k \in {"TaskCancel", "GraphTaskCancel", "DisconnectRequest", "DisconnectResponse"} -> [b EXCEPT !.id = d[1]]
      [] k = "TaskResult" -> [b EXCEPT !.id = d[1], !.st = st(2), !.dur = d[3], !.body = d[4]]
      [] k = "GraphTask" ->
            LET nf == Value(Num(d[2]))
                nt == Value(Num(d[3 + 3 * nf])) IN
            [b EXCEPT !.id = d[1], !.fns = [i \in 1..nf |-> <<d[2 + i], d[2 + nf + i], d[2 + 2 * nf + i]>>],
                      !.list = Sub(d, 4 + 3 * nf, 3 + 3 * nf + nt), !.nodes = Nodes(Sub(d, 4 + 3 * nf + nt, Len(d)))]
      [] k = "GraphTaskResult" -> [b EXCEPT !.id = d[1], !.st = st(2), !.list = Sub(d, 3, Len(d))]
      [] k = "BalanceRequest" -> [b EXCEPT !.n = Num(d[1])]
      [] k = "BalanceResponse" -> [b EXCEPT !.list = Sub(d, 2, Len(d))]
      [] k = "Heartbeat" ->
            LET h == d[1] IN
            [b EXCEPT !.hb = <<Field(h, 0, 4), Field(h, 8, 8), Field(h, 16, 4), Field(h, 24, 8), Field(h, 32, 4), Field(h, 36, 4),
                               Field(h, 40, 1), Field(h, 41, 1), Field(h, 42, 1)>>]
      [] k \in {"HeartbeatEcho", "WorkerTaskRequest"} -> b
      [] k \in {"FunctionRequest", "FunctionResponse"} -> [b EXCEPT !.st = st(1), !.id = d[2], !.name = d[3], !.body = d[4]]
      [] k = "SchedulerState" -> [b EXCEPT !.body = d[1]]
      [] k = "TaskState" -> [b EXCEPT !.id = d[1], !.name = d[2], !.st = st(3)]
      [] k = "GraphTaskState" -> [b EXCEPT !.id = d[1], !.fn = d[2], !.st = st(3), !.list = Sub(d, 4, Len(d))]
      [] OTHER -> b

(***************************************************************************)
(* When two messages are equal: functions and parents have no order, and   *)
(* processor loads are carried to a thousandth.                            *)
(***************************************************************************)
Near(a, b) == \* a is b or one thousandth less
    LET x == Value(a) y == Value(b) IN x = y \/ x = y - 1
Equal(m, o) ==
    IF m.k # o.k THEN FALSE
    ELSE IF m.k = "Heartbeat"
    THEN /\ Len(o.hb) = 9
         /\ \A i \in {2, 4, 5, 6, 7, 8, 9} : o.hb[i] = m.hb[i]
         /\ Near(o.hb[1], m.hb[1]) /\ Near(o.hb[3], m.hb[3])
    ELSE IF m.k = "GraphTask" THEN [m EXCEPT !.fns = <<>>] = [o EXCEPT !.fns = <<>>] /\ ToSet(m.fns) = ToSet(o.fns)
                                   /\ Len(m.fns) = Len(o.fns)
    ELSE IF m.k = "GraphTaskState" THEN [m EXCEPT !.list = <<>>] = [o EXCEPT !.list = <<>>] /\ ToSet(m.list) = ToSet(o.list)
                                        /\ Len(m.list) = Len(o.list)
    ELSE m = o
=============================================================================
