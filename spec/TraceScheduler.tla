--------------------------- MODULE TraceScheduler ---------------------------
(* Validates recorded executions of the real scheduler against Scheduler.   *)
EXTENDS Scheduler, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* names of rules not judged in this run (only rules whose breach leaves the state as it is)
CONSTANT Ignored

VARIABLES tr, l, s, run
vars == <<tr, l, s, run>>

Init == /\ tr \in 1..Len(Traces)
        /\ l = 0
        /\ s = InitState(Traces[tr].cfg)
        /\ run = TRUE

Next ==
    /\ run
    /\ LET T == Traces[tr].ev IN
       IF l = Len(T)
       THEN /\ PrintT(<<"ACCEPT", tr, l>>)
            /\ run' = FALSE /\ UNCHANGED <<tr, l, s>>
       ELSE LET e == T[l + 1]
                f == Fails(s, e) \cup (IF e.e = "idle" /\ s.now - s.stAt > 50 THEN {"status.silent"} ELSE {})
                serious == {x \in f : x \notin Ignored}
            IN  IF f = {}
                THEN /\ s' = Apply(s, e) /\ l' = l + 1 /\ UNCHANGED <<tr, run>>
                ELSE IF serious = {}   \* a rule another property is about: skip the event (a dispatch still happened)
                THEN /\ s' = IF e.e = "send" /\ e.k = "Task" THEN Apply(s, e) ELSE IF e.e \in {"idle", "stat"} THEN Apply(s, e) ELSE s
                     /\ l' = l + 1 /\ UNCHANGED <<tr, run>>
                ELSE /\ PrintT(<<"REJECT", tr, l + 1, f>>)
                     /\ run' = FALSE /\ UNCHANGED <<tr, l, s>>

Spec == Init /\ [][Next]_vars
=============================================================================
