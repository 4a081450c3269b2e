-------------------------------- MODULE Cluster --------------------------------
(***************************************************************************)
(* A cluster process and the workers it runs, as the scheduler and the     *)
(* user at the terminal see them.                                          *)
(*                                                                         *)
(* Events:  hello w  a worker says its first word to the scheduler         *)
(*          bye w    a worker takes its leave (st: under whose name)       *)
(*          ended w  a worker's process has ended by itself                *)
(*          strike w something else kills a worker's process               *)
(*          stop     somebody tells the cluster process to stop            *)
(*          over     the cluster process has ended                         *)
(*          idle     all is quiet, n processes of the cluster are there    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

(***************************************************************************)
(*  joined workers that have said something     byes   that took leave     *)
(*  gone   workers whose process has ended      struck those killed        *)
(***************************************************************************)
InitState(cfg) ==
    [n |-> cfg.n, joined |-> {}, byes |-> {}, gone |-> {}, struck |-> {}, stop |-> FALSE, over |-> FALSE]

Known(s) == s.joined \cup s.gone \cup s.struck

Fails(s, e) ==
    CASE e.e = "hello" ->
            UNION {IF e.w \in s.joined THEN {"cluster.hello"} ELSE {},
                   IF e.w \notin Known(s) /\ Cardinality(Known(s)) >= s.n THEN {"cluster.toomany"} ELSE {},
                   IF e.w \in s.gone \cup s.struck THEN {"cluster.ghost"} ELSE {}}
      [] e.e = "bye" ->
            UNION {IF s.stop THEN {} ELSE {"cluster.unasked"},
                   IF e.st = "self" THEN {} ELSE {"cluster.wrongbye"},
                   IF e.w \in s.byes THEN {"cluster.byetwice"} ELSE {}}
      [] e.e = "ended" ->
            UNION {IF s.stop THEN {} ELSE {"cluster.unasked"},
                   \* who has introduced himself takes his leave
                   IF e.w \in s.joined \ s.byes THEN {"cluster.nobye"} ELSE {}}
      [] e.e = "over" ->
            \* not before its workers, and not unless told to or all of them are gone
            UNION {IF s.joined \ (s.gone \cup s.struck) = {} THEN {} ELSE {"cluster.deserted"},
                   IF s.stop \/ Cardinality(s.gone \cup s.struck) = s.n THEN {} ELSE {"cluster.early"}}
      [] e.e = "idle" ->
            IF s.stop THEN IF s.over /\ e.n = 0 THEN {} ELSE {"cluster.stays"}
            ELSE UNION {IF Cardinality(Known(s)) = s.n THEN {} ELSE {"cluster.missing"},
                        IF s.over <=> Cardinality(s.gone \cup s.struck) = s.n THEN {} ELSE {"cluster.lingers"}}
      [] e.e \in {"strike", "stop"} -> {}
      [] OTHER -> {"livelock"}

Apply(s, e) ==
    CASE e.e = "hello" -> [s EXCEPT !.joined = @ \cup {e.w}]
      [] e.e = "bye" -> [s EXCEPT !.byes = @ \cup {e.w}]
      [] e.e = "ended" -> [s EXCEPT !.gone = @ \cup {e.w}]
      [] e.e = "strike" -> [s EXCEPT !.struck = @ \cup {e.w}]
      [] e.e = "stop" -> [s EXCEPT !.stop = TRUE]
      [] e.e = "over" -> [s EXCEPT !.over = TRUE]
      [] OTHER -> s
=============================================================================
