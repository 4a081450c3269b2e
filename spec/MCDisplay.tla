-------------------------------- MODULE MCDisplay -------------------------------
(***************************************************************************)
(* A user who presses keys, a scheduler whose workers come, go and change, *)
(* and a display that draws anything the rules allow.                      *)
(***************************************************************************)
EXTENDS Display, Json, SequencesExt
CONSTANTS Names, MaxShows, LogLen
VARIABLES s, shown, st, key, n, log
vars == <<s, shown, st, key, n, log>>

Keys == {"", "n", "f", "l", "x"}
\* cpu, free, lag; <<>> = not there
Values == {<<>>} \cup {<<c, f, l>> : c \in {0, 50}, f \in {9, 10}, l \in {7, 2000}}
Order == SetToSeq(Names)
Rank(x) == CHOOSE i \in DOMAIN Order : Order[i] = x
Worker(x, v) == [name |-> x, rank |-> Rank(x), ac |-> 0, ar |-> <<1>>, cpu |-> v[1], rss |-> <<0, 1>>, free |-> v[2], sent |-> 0,
                 queued |-> 0, lag |-> v[3], last |-> 0, itl |-> "100"]
Present(f) == SelectSeq(Order, LAMBDA x : f[x] # <<>>)
Workers(f) == [i \in DOMAIN Present(f) |-> Worker(Present(f)[i], f[Present(f)[i]])]
Text(w) == [i \in 1..Len(Cols) |-> CHOOSE x \in Row(w)[i] : TRUE]

Status(ws) == [cpu |-> 5, rss |-> <<1>>, tasks |-> <<>>, sent |-> <<>>, received |-> <<>>, clients |-> <<>>, funcs |-> <<>>, workers |-> ws]
Screen(ws, order, mark) ==
    [rows |-> 60, cols |-> 240, sched |-> <<<<"cpu", "0.5%">>, <<"rss", "1b">>>>, tasks |-> <<>>, sent |-> <<>>, received |-> <<>>,
     total |-> ToString(Len(ws)), head |-> IF ws = <<>> THEN <<"No", "workers">> ELSE Cols, mark |-> IF ws = <<>> THEN <<>> ELSE <<mark>>,
     workers |-> order, right |-> <<<<"", "">>, <<"func_to_num_tasks", "">>>>, title |-> "client_manager", room |-> 40]

\* the column chosen before is arbitrary: what holds after one status holds after any number of them
Init == /\ key \in (IF LogLen > 0 THEN {""} ELSE {"", "n", "f", "l"})
        /\ s = (IF key = "" THEN InitState([x |-> 0]) ELSE [sort |-> Shortcut[key]])
        /\ shown = <<>> /\ st = <<>> /\ n = 0 /\ log = <<>>
Show(k, f, order, mark) ==
    LET ws == Workers(f)
        e == [e |-> "show", key |-> k, st |-> Status(ws), scr |-> Screen(ws, order, mark)] IN
    /\ n < MaxShows /\ n' = n + 1
    /\ Fails(s, e) = {}
    /\ s' = Apply(s, e) /\ shown' = order /\ st' = ws
    /\ key' = IF k \in DOMAIN Shortcut THEN k ELSE key
    /\ log' = IF LogLen = 0 THEN log ELSE Append(log, <<k, f>>)
\* whatever is drawn consists of lines of workers: any of them, any number of times
Next == \E k \in Keys, f \in [Names -> Values] :
          LET ws == Workers(f)  lines == {Text(ws[i]) : i \in DOMAIN ws} IN
          IF LogLen > 0 THEN Show(k, f, [i \in DOMAIN ws |-> Text(SortSeq(ws, LAMBDA a, b : NotSmaller(a, b, Chosen(s, [key |-> k])) /\ (a # b))[i])],
                                  Chosen(s, [key |-> k]))
          ELSE \E m \in {Len(ws)} \cup (IF k = "" THEN {Len(ws) + 1} ELSE {}) : \E order \in [1..m -> lines], mark \in {Chosen(s, [key |-> k]), "cpu", "free"} : Show(k, f, order, mark)
Spec == Init /\ [][Next]_vars
View == <<s, shown, st, key, n>>

Col == IF key = "" THEN "cpu" ELSE Shortcut[key]
Value(w) == CASE Col = "worker" -> w.rank [] Col = "cpu" -> w.cpu [] Col = "free" -> w.free [] OTHER -> w.lag
EveryWorkerOnce == /\ Len(shown) = Len(st)
                   /\ \A i \in DOMAIN st : \E j \in DOMAIN shown : shown[j] = Text(st[i])
LargestFirst == \A i, j \in DOMAIN shown : i < j =>
                   \E a, b \in DOMAIN st : shown[i] = Text(st[a]) /\ shown[j] = Text(st[b]) /\ Value(st[a]) >= Value(st[b])
LastKey == s.sort = Col
Dump == IF LogLen > 0 /\ n = MaxShows THEN PrintT(<<"SCHED", ToJson(log)>>) ELSE TRUE

(***************************************************************************)
(* The texts keep the order of what they stand for                         *)
(***************************************************************************)
Sizes == {<<>>} \cup {<<a, b, c>> : a \in {0, 1, 1023}, b \in {0, 51, 512, 1023}, c \in {0, 1, 1023}}
ASSUME \A d \in Sizes : \E u \in {"b", "k", "m"} : Bytes(d) # u
ASSUME Bytes(<<>>) = "0b" /\ Bytes(<<1023>>) = "1023b" /\ Bytes(<<0, 1>>) = "1k" /\ Bytes(<<1023, 35>>) = "35k"
ASSUME Bytes(<<0, 0, 30>>) = "30.0m" /\ Bytes(<<0, 512, 30>>) = "30.5m" /\ Bytes(<<0, 256, 1>>) = "1.2m" /\ Bytes(<<0, 768, 1>>) = "1.8m"
ASSUME Bytes(<<1, 256, 1>>) = "1.3m" /\ Bytes(<<0, 0, 256, 1>>) = "1.2g" /\ Bytes(<<1, 0, 256, 1>>) = "1.3g" /\ Bytes(<<0, 1023, 1023>>) = "1024.0m"
ASSUME Commas(0) = "0" /\ Commas(999) = "999" /\ Commas(1000) = "1,000" /\ Commas(1002003) = "1,002,003"
ASSUME Micros(0) = {"0.0ms"} /\ Micros(50) = {"0.0ms", "0.1ms"} /\ Micros(999) = {"1.0ms"} /\ Micros(1000) = {"1ms"} /\ Micros(999999) = {"999ms"}
ASSUME Micros(1000000) = {"1s"} /\ Micros(2000000000) = {"1000+s"}
=============================================================================
