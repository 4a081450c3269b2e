-------------------------------- MODULE Binding --------------------------------
(***************************************************************************)
(* What the parameters of a Python function receive in a call, and what a  *)
(* submitted call may do instead.                                          *)
(* A signature is a sequence of parameters [kind, name, def]; kinds:       *)
(*   po positional only, pk positional or keyword, var *args,              *)
(*   ko keyword only, kw **kwargs                                          *)
(* A call is a number of positional arguments and a sequence of keywords.  *)
(* pp / pk: arguments already fixed by a partial object.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Idx(sig, ks) == SelectSeq([i \in DOMAIN sig |-> i], LAMBDA i : sig[i].kind \in ks)
Pos(sig) == Idx(sig, {"po", "pk"})          \* indices of positional parameters, in order
HasKind(sig, k) == \E i \in DOMAIN sig : sig[i].kind = k
NameAt(sig, n, ks) == {i \in DOMAIN sig : sig[i].kind \in ks /\ sig[i].name = n}

Error == <<"TypeError">>
RECURSIVE JoinC(_)
JoinC(q) == IF q = <<>> THEN "" ELSE Head(q) \o "," \o JoinC(Tail(q))

\* pos: the values of the positional arguments; kws: the keywords; kv[n]: the value of keyword n
Bind(sig, pos, kws, kv) ==
    LET P == Pos(sig)
        np == Len(pos)
        filled == {P[i] : i \in 1..(IF np < Len(P) THEN np ELSE Len(P))}
        \* keywords that go to a parameter / to **kwargs
        named == {k \in ToSet(kws) : NameAt(sig, k, {"pk", "ko"}) # {}}
        loose == {k \in ToSet(kws) : k \notin named}
        target(k) == CHOOSE i \in DOMAIN sig : sig[i].kind \in {"pk", "ko"} /\ sig[i].name = k
        missing == {i \in DOMAIN sig : sig[i].kind \in {"po", "pk", "ko"} /\ ~sig[i].def /\ i \notin filled
                                       /\ \A k \in named : target(k) # i}
        at(i) == CHOOSE j \in DOMAIN P : P[j] = i
    IN  IF np > Len(P) /\ ~HasKind(sig, "var") THEN Error
        ELSE IF \E k \in named : target(k) \in filled THEN Error
        ELSE IF loose # {} /\ ~HasKind(sig, "kw") THEN Error
        ELSE IF missing # {} THEN Error
        ELSE [i \in DOMAIN sig |->
                CASE sig[i].kind = "var" -> JoinC(SubSeq(pos, Len(P) + 1, np))
                  [] sig[i].kind = "kw" -> JoinC(SelectSeq(kws, LAMBDA k : k \in loose))
                  [] i \in filled -> pos[at(i)]
                  [] \E k \in named : target(k) = i -> kv[CHOOSE k \in named : target(k) = i]
                  [] OTHER -> "d." \o sig[i].name]

Args(n) == [i \in 1..n |-> "p" \o ToString(i - 1)]
KwVals(kws) == [k \in ToSet(kws) |-> "k." \o k]
Local(sig, n, kws) == Bind(sig, Args(n), kws, KwVals(kws))

(***************************************************************************)
(* Only positional arguments travel: the way to say the same without       *)
(* keywords                                                                *)
(***************************************************************************)
OnlyByName(sig, kws) == \* arguments of the call that cannot be given by position
    \E k \in ToSet(kws) : NameAt(sig, k, {"pk"}) = {}
Positional(sig, n, kws) ==
    LET b == Local(sig, n, kws) P == Pos(sig) IN
    [j \in 1..(IF n > Len(P) THEN n ELSE Len(P)) |-> IF j > Len(P) THEN Args(n)[j] ELSE b[P[j]]]

(***************************************************************************)
(* Judging a recorded call: e.local / e.remote are what the function got   *)
(* (or "TypeError"); e.st: "ok", or how submit refused                     *)
(***************************************************************************)
Expected(e) ==
    IF e.fixed = <<>> /\ e.fixedkw = <<>> THEN Local(e.sig, e.n, e.kws)
    ELSE LET extra == SelectSeq(e.fixedkw, LAMBDA k : ~(\E i \in DOMAIN e.kws : e.kws[i] = k))
             all == e.kws \o extra
         IN  Bind(e.sig, e.fixed \o Args(e.n), SortSeq(all, LAMBDA a, b : e.rank[a] < e.rank[b]),
                  [k \in ToSet(all) |-> IF k \in ToSet(e.kws) THEN "k." \o k ELSE "f." \o k])

Fails(e) ==
    IF e.e # "bind" THEN {"livelock"}
    ELSE IF e.known /\ Expected(e) # e.loc THEN {"?local"}   \* the specification itself is wrong about Python
    ELSE IF e.st = "ok"
    THEN IF e.remote = e.loc THEN {} ELSE {"bind.wrong"}
    ELSE IF e.st # "TypeError" THEN {"bind.raised"}
    ELSE IF e.loc = Error THEN {}
    ELSE IF e.known /\ ~OnlyByName(e.sig, e.kws) /\ e.fixedkw = <<>> THEN {"bind.refused"}
    ELSE IF ~e.known /\ e.kws = <<>> THEN {"bind.refused"}
    ELSE {}
=============================================================================
