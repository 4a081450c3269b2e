--------------------------------- MODULE Queue ---------------------------------
(***************************************************************************)
(* A first-in-first-out queue of distinct items with removal and waiting   *)
(* readers, as a user of the queue sees it.                                *)
(* Events: put, take (get without waiting), remove, has, len: an operation *)
(* and its outcome; read / stop: a reader starts waiting / gives up; got:  *)
(* a reader gets an item; idle: nothing more happens by itself.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

InitState(cfg) == [q |-> <<>>, wait |-> {}]
In(x, q) == \E i \in DOMAIN q : q[i] = x
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)

Fails(s, e) ==
    CASE e.e = "put" -> IF In(e.x, s.q) THEN IF e.r = "KeyError" THEN {} ELSE {"queue.doubled"}
                        ELSE IF e.r = "ok" THEN {} ELSE {"queue.refused"}
      [] e.e = "take" -> IF s.q = <<>> THEN IF e.r = "QueueEmpty" THEN {} ELSE {"queue.invented"}
                         ELSE IF e.r = "ok" /\ e.x = Head(s.q) THEN {} ELSE IF e.r = "ok" THEN {"queue.order"} ELSE {"queue.lost"}
      [] e.e = "remove" -> IF In(e.x, s.q) THEN IF e.r = "ok" THEN {} ELSE {"queue.notremoved"}
                           ELSE IF e.r = "KeyError" THEN {} ELSE {"queue.removed"}
      [] e.e = "has" -> IF e.r = (IF In(e.x, s.q) THEN "yes" ELSE "no") THEN {} ELSE {"queue.member"}
      [] e.e = "len" -> IF e.n = Len(s.q) THEN {} ELSE {"queue.length"}
      [] e.e = "got" -> IF s.q = <<>> THEN {"queue.invented"} ELSE IF e.x = Head(s.q) THEN {} ELSE {"queue.order"}
      [] e.e = "idle" -> IF s.q # <<>> /\ s.wait # {} THEN {"queue.starved"} ELSE {}
      [] e.e \in {"read", "stop"} -> {}
      [] e.e = "failed" -> {"queue.reader"}
      [] OTHER -> {"livelock"}

Apply(s, e) ==
    CASE e.e = "put" /\ ~In(e.x, s.q) -> [s EXCEPT !.q = Append(@, e.x)]
      [] e.e = "take" /\ s.q # <<>> -> [s EXCEPT !.q = Tail(@)]
      [] e.e = "remove" -> [s EXCEPT !.q = Without(@, e.x)]
      [] e.e = "got" -> [s EXCEPT !.q = Tail(@), !.wait = @ \ {e.n}]
      [] e.e = "read" -> [s EXCEPT !.wait = @ \cup {e.n}]
      [] e.e = "stop" -> [s EXCEPT !.wait = @ \ {e.n}]
      [] OTHER -> s
=============================================================================
