-------------------------------- MODULE Held --------------------------------
(***************************************************************************)
(* How much a long-running program holds on to.  Whenever the specified    *)
(* state is back where it was (same key, nothing left to do) the amount of *)
(* data the real program holds is noted; over equal rounds it must not     *)
(* keep growing: what is finished leaves nothing behind.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* measurements so far: part of the program -> key of the state, amounts
Noted(h, who, key, n) ==
    LET old == IF who \in DOMAIN h /\ h[who].key = key THEN h[who].q ELSE <<>>
        new == [key |-> key, q |-> Append(old, n)]
    IN  [w \in DOMAIN h \cup {who} |-> IF w = who THEN new ELSE h[w]]

\* the first round may set things up for good; later ones must not end above all of the early ones again and again
Grew(q) ==
    /\ Len(q) >= 7
    /\ \A i \in Len(q) - 2 .. Len(q), j \in 2..4 : q[i] > q[j]

HeldFails(h, who, key, n) == IF Grew(Noted(h, who, key, n)[who].q) THEN {"held.grows"} ELSE {}
=============================================================================
