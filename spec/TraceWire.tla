-------------------------------- MODULE TraceWire -------------------------------
(* Validates recorded messages: m was sent, fr are the frames seen on the socket, got what the receiving side made of them. *)
EXTENDS Wire, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
CONSTANT Ignored
VARIABLES tr, l, run
vars == <<tr, l, run>>

Fails(e) ==
    IF e.e # "msg" THEN {"livelock"}
    ELSE IF e.fr = <<>> THEN {"wire.unsent"}
    ELSE IF e.fr[1] # Code[e.m.k] THEN {"wire.type"}
    ELSE IF ~(Len(e.fr) >= 2 /\ LET d == Decode(e.fr) IN Equal(e.m, d) /\ Encode(d) = e.fr) THEN {"wire.frames"}
    ELSE IF e.got = <<>> THEN {"wire.lost"}
    ELSE IF Len(e.got) > 1 THEN {"wire.repeated"}
    ELSE IF Equal(e.m, e.got[1]) THEN {} ELSE {"wire.received"}

Init == tr \in 1..Len(Traces) /\ l = 0 /\ run = TRUE
Next ==
    /\ run
    /\ LET T == Traces[tr].ev IN
       IF l = Len(T) THEN PrintT(<<"ACCEPT", tr, l>>) /\ run' = FALSE /\ UNCHANGED <<tr, l>>
       ELSE LET f == Fails(T[l + 1]) IN
            IF f \ Ignored = {} THEN l' = l + 1 /\ UNCHANGED <<tr, run>>
            ELSE PrintT(<<"REJECT", tr, l + 1, f>>) /\ run' = FALSE /\ UNCHANGED <<tr, l>>
Spec == Init /\ [][Next]_vars
=============================================================================
