-------------------------------- MODULE MCQueue --------------------------------
(***************************************************************************)
(* The queue as a doubly linked list with an index from items to nodes,    *)
(* and readers that are woken one per item; it implements Queue.           *)
(***************************************************************************)
EXTENDS Queue, Json
CONSTANTS Items, Readers, LogLen

Nil == "nil"
VARIABLES head, tail, prev, next, index, size,      \* list: new items enter at the head and leave at the tail
          waiting, woken,                           \* readers waiting in order, readers woken and about to look
          s, bad, log
vars == <<head, tail, prev, next, index, size, waiting, woken, s, bad, log>>
list == <<head, tail, prev, next, index, size>>

Init == /\ head = Nil /\ tail = Nil /\ prev = [x \in Items |-> Nil] /\ next = [x \in Items |-> Nil] /\ index = {} /\ size = 0
        /\ waiting = <<>> /\ woken = {}
        /\ s = InitState([x |-> 0]) /\ bad = {} /\ log = <<>>

Room == LogLen = 0 \/ Len(log) < LogLen
Label(x) == log' = IF LogLen = 0 THEN log ELSE Append(log, x)
Ev(e, x, r, k) == [e |-> e, x |-> x, r |-> r, n |-> k]
Seen(e) == bad' = bad \cup Fails(s, e) /\ s' = Apply(s, e)

Wake == IF waiting = <<>> THEN UNCHANGED <<waiting, woken>>
        ELSE waiting' = Tail(waiting) /\ woken' = woken \cup {Head(waiting)}

Put(x) ==
    /\ Room /\ Label(<<"put", x>>)
    /\ IF x \in index THEN Seen(Ev("put", x, "KeyError", 0)) /\ UNCHANGED <<list, waiting, woken>>
       ELSE /\ Seen(Ev("put", x, "ok", 0))
            /\ index' = index \cup {x} /\ size' = size + 1 /\ head' = x
            /\ IF head = Nil THEN tail' = x /\ prev' = [prev EXCEPT ![x] = Nil] /\ next' = [next EXCEPT ![x] = Nil]
               ELSE /\ tail' = tail /\ next' = [next EXCEPT ![x] = head] /\ prev' = [prev EXCEPT ![head] = x, ![x] = Nil]
            /\ Wake

Pop(x) == \* x = tail leaves
    /\ size' = size - 1 /\ index' = index \ {x}
    /\ IF prev[x] = Nil THEN head' = Nil /\ tail' = Nil /\ UNCHANGED <<prev, next>>
       ELSE tail' = prev[x] /\ next' = [next EXCEPT ![prev[x]] = Nil] /\ UNCHANGED <<head, prev>>

Take ==
    /\ Room /\ Label(<<"take">>) /\ UNCHANGED <<waiting, woken>>
    /\ IF size = 0 THEN Seen(Ev("take", "", "QueueEmpty", 0)) /\ UNCHANGED list
       ELSE Seen(Ev("take", tail, "ok", 0)) /\ Pop(tail)

Remove2(x) ==
    /\ Room /\ Label(<<"remove", x>>) /\ UNCHANGED <<waiting, woken>>
    /\ IF x \notin index THEN Seen(Ev("remove", x, "KeyError", 0)) /\ UNCHANGED list
       ELSE /\ Seen(Ev("remove", x, "ok", 0)) /\ index' = index \ {x} /\ size' = size - 1
            /\ LET p == prev[x] n == next[x] IN
               /\ head' = IF p = Nil THEN n ELSE head
               /\ tail' = IF n = Nil THEN p ELSE tail
               /\ next' = IF p = Nil THEN next ELSE [next EXCEPT ![p] = n]
               /\ prev' = IF n = Nil THEN prev ELSE [prev EXCEPT ![n] = p]

Read(r) ==
    /\ Room /\ r \notin s.wait /\ Label(<<"read", r>>)
    /\ s' = Apply(s, Ev("read", "", "", r)) /\ bad' = bad
    /\ IF size = 0 THEN waiting' = Append(waiting, r) /\ woken' = woken ELSE woken' = woken \cup {r} /\ waiting' = waiting
    /\ UNCHANGED list
Look(r) == \* a woken reader takes an item or waits again
    /\ r \in woken
    /\ IF size = 0 THEN waiting' = Append(waiting, r) /\ woken' = woken \ {r} /\ UNCHANGED <<s, bad, list>>
       ELSE Seen(Ev("got", tail, "ok", r)) /\ Pop(tail) /\ woken' = woken \ {r} /\ waiting' = waiting
    /\ log' = log
Stop(r) ==
    /\ Room /\ r \in s.wait /\ Label(<<"stop", r>>)
    /\ s' = Apply(s, Ev("stop", "", "", r)) /\ bad' = bad /\ UNCHANGED list
    /\ IF r \in woken /\ size > 0 /\ waiting # <<>>   \* hand the wake-up on
       THEN woken' = (woken \ {r}) \cup {Head(waiting)} /\ waiting' = Tail(waiting)
       ELSE woken' = woken \ {r} /\ waiting' = SelectSeq(waiting, LAMBDA y : y # r)
Idle == Room /\ woken = {} /\ Label(<<"spin">>) /\ Seen(Ev("idle", "", "", 0)) /\ UNCHANGED <<list, waiting, woken>> /\ LogLen > 0

Next == \/ \E x \in Items : Put(x) \/ Remove2(x)
        \/ Take
        \/ \E r \in Readers : Read(r) \/ Look(r) \/ Stop(r)
        \/ Idle
Spec == Init /\ [][Next]_vars
View == <<list, waiting, woken, s, bad>>

RECURSIVE Walk(_)
Walk(x) == IF x = Nil THEN <<>> ELSE <<x>> \o Walk(prev[x])
NothingBad == bad = {}
SameContent == Walk(tail) = s.q /\ index = ToSet(s.q) /\ size = Len(s.q)
NotStarved == woken = {} => Fails(s, Ev("idle", "", "", 0)) = {}
Dump == IF LogLen > 0 /\ Len(log) = LogLen THEN PrintT(<<"SCHED", ToJson(log)>>) ELSE TRUE
=============================================================================
