------------------------------- MODULE MCCluster -------------------------------
(***************************************************************************)
(* How a cluster process starts and stops its workers; implements Cluster. *)
(* The cluster starts its workers one by one, looking after each start     *)
(* whether it has been told to stop meanwhile, then waits for them.  The   *)
(* handler of a signal interrupts it anywhere: it remembers the request    *)
(* and tells the workers that are alive.                                   *)
(* With Careless = TRUE the request is not remembered, as the code under   *)
(* test once had it; TLC then finds the cluster that never ends.           *)
(***************************************************************************)
EXTENDS Cluster, Sequences, Json
CONSTANTS N, MaxStops, MaxStrikes, Careless, LogLen

VARIABLES pc, k,        \* the cluster: starting, started (worker k), waiting, over
          stopping,     \* has it been told to stop?
          ws,           \* worker -> none, boot, loop, leaving, ended, struck
          told,         \* workers that have been told
          nstop, nstrike, s, bad, log
vars == <<pc, k, stopping, ws, told, nstop, nstrike, s, bad, log>>
W == 1..N
Name(w) == "w" \o ToString(w)

Init == /\ pc = "starting" /\ k = 1 /\ stopping = FALSE /\ ws = [w \in W |-> "none"] /\ told = {} /\ nstop = 0 /\ nstrike = 0
        /\ s = InitState([n |-> N]) /\ bad = {} /\ log = <<>>

Ev(e, w, n, st) == [e |-> e, w |-> w, n |-> n, st |-> st]
Seen(e) == bad' = bad \cup Fails(s, e) /\ s' = Apply(s, e)
Quietly == UNCHANGED <<s, bad>>
Room == LogLen = 0 \/ Len(log) < LogLen
Label(x) == Room /\ log' = IF LogLen = 0 THEN log ELSE Append(log, x)

Alive(w) == ws[w] \in {"boot", "loop", "leaving"}

\* ---- the cluster
Start ==
    /\ pc = "starting"
    /\ IF k > N \/ stopping THEN pc' = "waiting" /\ UNCHANGED <<ws, k>> /\ log' = log
       ELSE ws' = [ws EXCEPT ![k] = "boot"] /\ pc' = "started" /\ k' = k /\ Label(<<"begin", k>>)
    /\ Quietly /\ UNCHANGED <<stopping, told, nstop, nstrike>>
Started ==
    /\ pc = "started"
    /\ told' = IF stopping /\ Alive(k) THEN told \cup {k} ELSE told
    /\ pc' = "starting" /\ k' = k + 1
    /\ Quietly /\ UNCHANGED <<stopping, ws, nstop, nstrike, log>>
Over ==
    /\ pc = "waiting" /\ \A w \in W : ~Alive(w)
    /\ pc' = "over" /\ Seen(Ev("over", "", 0, "")) /\ UNCHANGED <<k, stopping, ws, told, nstop, nstrike, log>>

\* the handler of a signal; workers of which the start is not complete are not told
Stop(sig) ==
    /\ pc # "over" /\ nstop < MaxStops /\ nstop' = nstop + 1 /\ Label(<<"stop", sig>>)
    /\ stopping' = ~Careless
    /\ \E late \in BOOLEAN : told' = told \cup {w \in W : Alive(w) /\ ~(late /\ pc = "started" /\ w = k)}
    /\ Seen(Ev("stop", "", 0, sig)) /\ UNCHANGED <<pc, k, ws, nstrike>>

\* ---- a worker
Hello(w) == /\ ws[w] = "boot" /\ ws' = [ws EXCEPT ![w] = "loop"] /\ Seen(Ev("hello", Name(w), 0, "")) /\ Label(<<"hello">>)
            /\ UNCHANGED <<pc, k, stopping, told, nstop, nstrike>>
Heed(w) == /\ w \in told /\ ws[w] \in {"boot", "loop"}
           /\ IF ws[w] = "loop" THEN ws' = [ws EXCEPT ![w] = "leaving"] /\ Seen(Ev("bye", Name(w), 0, "self"))
              ELSE ws' = [ws EXCEPT ![w] = "ended"] /\ Seen(Ev("ended", Name(w), 0, ""))
           /\ UNCHANGED <<pc, k, stopping, told, nstop, nstrike, log>>
Leave(w) == /\ ws[w] = "leaving" /\ ws' = [ws EXCEPT ![w] = "ended"] /\ Seen(Ev("ended", Name(w), 0, ""))
            /\ Label(<<"ended">>) /\ UNCHANGED <<pc, k, stopping, told, nstop, nstrike>>
Strike(w) == /\ Alive(w) /\ nstrike < MaxStrikes /\ nstrike' = nstrike + 1 /\ ws' = [ws EXCEPT ![w] = "struck"]
             /\ Seen(Ev("strike", Name(w), 0, "")) /\ Label(<<"strike", w>>) /\ UNCHANGED <<pc, k, stopping, told, nstop>>

Next == \/ Start \/ Started \/ Over
        \/ \E sig \in {"INT", "TERM"} : Stop(sig)
        \/ \E w \in W : Hello(w) \/ Heed(w) \/ Leave(w) \/ Strike(w)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Start) /\ WF_vars(Started) /\ WF_vars(Over)
                 /\ \A w \in W : WF_vars(Hello(w)) /\ WF_vars(Heed(w)) /\ WF_vars(Leave(w))
View == <<pc, k, stopping, ws, told, nstop, nstrike, s, bad>>

Quiet == /\ pc \in {"waiting", "over"} /\ (pc = "waiting" => \E w \in W : Alive(w))
         /\ \A w \in W : ws[w] \notin {"boot", "leaving"} /\ (w \in told => ws[w] # "loop")
Processes == Cardinality({w \in W : Alive(w)}) * 2 + (IF pc = "over" THEN 0 ELSE 1)
NothingBad == bad = {}
AtRest == Quiet => Fails(s, Ev("idle", "", Processes, "")) = {}
Stops == [](s.stop => <>(pc = "over" /\ \A w \in W : ~Alive(w)))
Dump == IF LogLen > 0 /\ (Len(log) = LogLen \/ pc = "over") THEN PrintT(<<"SCHED", ToJson(log)>>) ELSE TRUE
=============================================================================
