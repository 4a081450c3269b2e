------------------------------- MODULE MCBinding -------------------------------
(* All signatures and calls up to a size: the positional form of a call binds like the call itself. *)
EXTENDS Binding, Json
CONSTANTS NPos, NKo, Printing
VARIABLE c
Names == <<"a", "b", "c", "d">>
KoNames == <<"x", "y">>
Par(k, n, d) == [kind |-> k, name |-> n, def |-> d]

\* np positional parameters, the first `po` of them positional only, the last `nd` with defaults
PosPart(np, po, nd) == [i \in 1..np |-> Par(IF i <= po THEN "po" ELSE "pk", Names[i], i > np - nd)]
Opt(b, p) == IF b THEN <<p>> ELSE <<>>
Sigs == UNION {{PosPart(np, po, nd) \o Opt(v, Par("var", "args", FALSE))
                \o [i \in 1..ko |-> Par("ko", KoNames[i], (i = 1) = kd)] \o Opt(w, Par("kw", "kwargs", FALSE))
                 : po \in 0..np, nd \in 0..np, v \in BOOLEAN, w \in BOOLEAN, ko \in 0..NKo, kd \in BOOLEAN} : np \in 0..NPos}
Keys(sig) == [i \in 1..Len(Idx(sig, {"po", "pk", "ko"})) |-> sig[Idx(sig, {"po", "pk", "ko"})[i]].name] \o <<"zz">>
Calls(sig) == {[sig |-> sig, n |-> n, kws |-> SelectSeq(Keys(sig), LAMBDA k : k \in S)]
                : n \in 0..(Len(Pos(sig)) + 1), S \in SUBSET ToSet(Keys(sig))}
Init == c \in UNION {Calls(sig) : sig \in Sigs}
Next == FALSE /\ UNCHANGED c
Spec == Init /\ [][Next]_c

\* calls that only use what can be given by position
Same == LET b == Local(c.sig, c.n, c.kws) IN
        b # Error /\ ~OnlyByName(c.sig, c.kws) => Local(c.sig, Len(Positional(c.sig, c.n, c.kws)), <<>>) # Error
            /\ Bind(c.sig, Positional(c.sig, c.n, c.kws), <<>>, [k \in {} |-> ""]) = b
Dump == IF Printing THEN PrintT(<<"SCHED", ToJson(c)>>) ELSE TRUE
=============================================================================
