--------------------------- MODULE TraceQueue ------------------------------
(* Validates recorded executions of the real queue against Queue.           *)
EXTENDS Queue, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* names of rules not judged in this run (only rules whose breach leaves the state as it is)
CONSTANT Ignored

VARIABLES tr, l, s, run
vars == <<tr, l, s, run>>

Init == /\ tr \in 1..Len(Traces)
        /\ l = 0
        /\ s = InitState(Traces[tr].cfg)
        /\ run = TRUE

Next ==
    /\ run
    /\ LET T == Traces[tr].ev IN
       IF l = Len(T)
       THEN /\ PrintT(<<"ACCEPT", tr, l>>)
            /\ run' = FALSE /\ UNCHANGED <<tr, l, s>>
       ELSE LET e == T[l + 1]
                f == Fails(s, e)
                serious == {x \in f : x \notin Ignored}
            IN  IF f = {}
                THEN /\ s' = Apply(s, e) /\ l' = l + 1 /\ UNCHANGED <<tr, run>>
                ELSE IF serious = {}   \* a rule another property is about, which does not change the state
                THEN /\ s' = Apply(s, e) /\ l' = l + 1 /\ UNCHANGED <<tr, run>>
                ELSE /\ PrintT(<<"REJECT", tr, l + 1, f>>)
                     /\ run' = FALSE /\ UNCHANGED <<tr, l, s>>

Spec == Init /\ [][Next]_vars
=============================================================================
