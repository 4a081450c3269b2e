-------------------------------- MODULE Display --------------------------------
(***************************************************************************)
(* The monitor program (scaled_top): what is on the screen after a status  *)
(* of the scheduler arrived.                                               *)
(*                                                                         *)
(* Events                                                                  *)
(*   show   a status st arrived, key was pressed before ("" for none), scr *)
(*          is the screen afterwards                                       *)
(*   blank  a status arrived and the screen was not drawn                  *)
(*   drawn  something else was published and the screen was drawn          *)
(*   end    the program ended, after why = "silence" (nothing published    *)
(*          for the given time) or "interrupt"; how it ended               *)
(* Numbers of bytes are their base 1024 digits, least significant first;   *)
(* shares of a processor are thousandths; names carry their rank.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Cols == <<"worker", "agt_cpu", "agt_rss", "cpu", "rss", "free", "sent", "queued", "lag", "ITL">>
Shortcut == [n |-> "worker", C |-> "agt_cpu", M |-> "agt_rss", c |-> "cpu", m |-> "rss", f |-> "free", w |-> "sent",
             d |-> "queued", l |-> "lag"]
InitState(c) == [sort |-> "cpu"]

(***************************************************************************)
(* Texts                                                                   *)
(***************************************************************************)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Three(n) == IF n < 100 THEN "0" \o Two(n) ELSE ToString(n)
RECURSIVE Commas(_)
Commas(n) == IF n < 1000 THEN ToString(n) ELSE Commas(n \div 1000) \o "," \o Three(n % 1000)
Tenths(n) == ToString(n \div 10) \o "." \o ToString(n % 10)
Percent(n) == Tenths(n) \o "%"
Trunc(x, n) == IF Len(x) <= n THEN x ELSE SubSeq(x, 1, n) \o "+"

D(d, i) == IF i \in DOMAIN d THEN d[i] ELSE 0
Units == <<"b", "k", "m", "g", "t">>
Top(d) == IF \E i \in DOMAIN d : d[i] > 0 THEN CHOOSE i \in DOMAIN d : d[i] > 0 /\ \A j \in DOMAIN d : j > i => d[j] = 0 ELSE 1
\* to the nearest tenth, halves to the even one
Rounded(d, u) ==
    LET t == (D(d, u - 1) * 1024 + D(d, u - 2)) * 10 + (D(d, u - 3) * 10) \div 1024
        rest == (D(d, u - 3) * 10) % 1024 > 0 \/ \E i \in DOMAIN d : i < u - 3 /\ d[i] > 0
        q == t \div 1048576
        r == t % 1048576
        up == r > 524288 \/ (r = 524288 /\ (rest \/ q % 2 = 1))
    IN d[u] * 10 + q + (IF up THEN 1 ELSE 0)
Bytes(d) == LET u == Top(d) IN
            IF u <= 2 THEN ToString(D(d, u)) \o Units[u] ELSE Tenths(Rounded(d, u)) \o Units[u]

\* microseconds; a tie between two tenths may go either way
Micros(n) == IF n >= 1000000000 THEN {"1000+s"}
             ELSE IF n >= 1000000 THEN {ToString(n \div 1000000) \o "s"}
             ELSE IF n >= 1000 THEN {ToString(n \div 1000) \o "ms"}
             ELSE {Tenths(x) \o "ms" : x \in {y \in {n \div 100, n \div 100 + 1} :
                                               LET dist == IF y * 100 > n THEN y * 100 - n ELSE n - y * 100 IN dist <= 50}}
Seconds(n) == IF n > 60 THEN "60+s" ELSE ToString(n) \o "s"
Lag(w) == IF w.last > 5 THEN {"(" \o Seconds(w.last) \o ") " \o x : x \in Micros(w.lag)} ELSE Micros(w.lag)

Row(w) == <<{Trunc(w.name, 24)}, {Percent(w.ac)}, {Bytes(w.ar)}, {Percent(w.cpu)}, {Bytes(w.rss)}, {ToString(w.free)},
            {ToString(w.sent)}, {ToString(w.queued)}, Lag(w), {w.itl}>>
Matches(cells, w) == LET r == Row(w) IN Len(cells) = Len(r) /\ \A i \in DOMAIN r : cells[i] \in r[i]

(***************************************************************************)
(* Order: largest first in the chosen column                               *)
(***************************************************************************)
RECURSIVE AtLeast(_, _, _)
AtLeast(a, b, i) == IF i = 0 THEN TRUE ELSE IF D(a, i) # D(b, i) THEN D(a, i) > D(b, i) ELSE AtLeast(a, b, i - 1)
Bigger(a, b) == AtLeast(a, b, 6)
NotSmaller(a, b, col) ==
    CASE col = "worker" -> a.rank >= b.rank
      [] col = "agt_cpu" -> a.ac >= b.ac
      [] col = "agt_rss" -> Bigger(a.ar, b.ar)
      [] col = "cpu" -> a.cpu >= b.cpu
      [] col = "rss" -> Bigger(a.rss, b.rss)
      [] col = "free" -> a.free >= b.free
      [] col = "sent" -> a.sent >= b.sent
      [] col = "queued" -> a.queued >= b.queued
      [] OTHER -> a.lag >= b.lag

\* rows are the first ones of some order of the workers ws, largest first
RECURSIVE Shows(_, _, _)
Shows(rows, ws, col) ==
    \/ rows = <<>>
    \/ \E i \in DOMAIN ws :
          /\ Matches(Head(rows), ws[i])
          /\ \A j \in DOMAIN ws : NotSmaller(ws[i], ws[j], col)
          /\ Shows(Tail(rows), [j \in 1..(Len(ws) - 1) |-> IF j < i THEN ws[j] ELSE ws[j + 1]], col)
\* the same without regard to order
RECURSIVE Lists(_, _)
Lists(rows, ws) ==
    \/ rows = <<>>
    \/ \E i \in DOMAIN ws : /\ Matches(Head(rows), ws[i])
                            /\ Lists(Tail(rows), [j \in 1..(Len(ws) - 1) |-> IF j < i THEN ws[j] ELSE ws[j + 1]])

(***************************************************************************)
(* The screen                                                              *)
(***************************************************************************)
Counters(q) == [i \in DOMAIN q |-> <<q[i][1], Commas(q[i][2])>>]
Named(q) == [i \in DOMAIN q |-> <<Trunc(q[i][1], 18), ToString(q[i][2])>>]
Right(st) == Named(st.clients) \o <<<<"", "">>>> \o <<<<"func_to_num_tasks", "">>>> \o Named(st.funcs)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Bag(q) == [x \in {q[i] : i \in DOMAIN q} |-> Cardinality({i \in DOMAIN q : q[i] = x})]
\* lines needed by the counters above the list of workers
Upper(st) == 1 + Max2(Max2(2, Len(st.tasks)), Max2(Len(st.sent), Len(st.received)))
RECURSIVE Stripped(_)   \* without the empty lines at the end
Stripped(q) == IF q # <<>> /\ q[Len(q)] = <<"", "">> THEN Stripped(SubSeq(q, 1, Len(q) - 1)) ELSE q
FirstOf(q, n) == Stripped(SubSeq(q, 1, Min2(n, Len(q))))

Chosen(s, e) == IF e.key \in DOMAIN Shortcut THEN Shortcut[e.key] ELSE s.sort

ShowFails(s, e) ==
    LET st == e.st  scr == e.scr  col == Chosen(s, e)
        lines == Max2(Len(st.workers), Len(Right(st)))
    IN
    IF scr.rows < Upper(st) + 6 \/ scr.cols < 200 THEN {}   \* no room: nothing is promised except to carry on
    ELSE (IF scr.sched = <<<<"cpu", Percent(st.cpu)>>, <<"rss", Bytes(st.rss)>>>> THEN {} ELSE {"top.scheduler"})
    \cup (IF Bag(scr.tasks) = Bag(Counters(st.tasks)) THEN {} ELSE {"top.tasks"})
    \cup (IF Bag(scr.sent) = Bag(Counters(st.sent)) THEN {} ELSE {"top.sent"})
    \cup (IF Bag(scr.received) = Bag(Counters(st.received)) THEN {} ELSE {"top.received"})
    \cup (IF scr.total = ToString(Len(st.workers)) THEN {} ELSE {"top.total"})
    \cup (IF st.workers = <<>> THEN (IF scr.head = <<"No", "workers">> THEN {} ELSE {"top.workers"})
          ELSE (IF scr.head = Cols THEN {} ELSE {"top.columns"})
          \cup (IF scr.mark = <<col>> THEN {} ELSE {"top.column"})
          \cup (IF Len(scr.workers) # Min2(Len(st.workers), scr.room) \/ ~Lists(scr.workers, st.workers) THEN {"top.workers"}
                ELSE IF Shows(scr.workers, st.workers, col) THEN {} ELSE {"top.order"}))
    \cup (IF scr.title = "client_manager"
             /\ (IF lines <= scr.room THEN Bag(scr.right) = Bag(Right(st)) ELSE scr.right = FirstOf(Right(st), scr.room))
          THEN {} ELSE {"top.clients"})

Fails(s, e) ==
    CASE e.e = "show" -> ShowFails(s, e)
      [] e.e = "blank" -> {"top.blank"}
      [] e.e = "drawn" -> {"top.drawn"}
      [] e.e = "end" -> IF e.why = "silence" THEN (IF e.how = "TimeoutError" /\ e.names THEN {} ELSE {"top.silence"})
                        ELSE IF e.why = "interrupt" THEN (IF e.how = "quiet" THEN {} ELSE {"top.interrupt"})
                        ELSE {"crashed"}
      [] OTHER -> {"livelock"}
Apply(s, e) == IF e.e = "show" THEN [s EXCEPT !.sort = Chosen(s, e)] ELSE s
=============================================================================
