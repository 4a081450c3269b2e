-------------------------------- MODULE TraceBinding -------------------------------
(* Validates recorded calls. *)
EXTENDS Binding, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Ignored
VARIABLES tr, l, run
vars == <<tr, l, run>>

Init == tr \in 1..Len(Traces) /\ l = 0 /\ run = TRUE
Next ==
    /\ run
    /\ LET T == Traces[tr].ev IN
       IF l = Len(T) THEN PrintT(<<"ACCEPT", tr, l>>) /\ run' = FALSE /\ UNCHANGED <<tr, l>>
       ELSE LET f == Fails(T[l + 1]) IN
            IF f \ Ignored = {} THEN l' = l + 1 /\ UNCHANGED <<tr, run>>
            ELSE PrintT(<<"REJECT", tr, l + 1, f>>) /\ run' = FALSE /\ UNCHANGED <<tr, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
