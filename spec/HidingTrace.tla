---------------------------- MODULE HidingTrace ----------------------------
(* Blinding values of recorded proofs, ballots and ciphertexts, judged.     *)
EXTENDS Hiding, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, hist
vars == <<i, hist>>
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Init == i = 0 /\ hist = EmptyHist

\* vals: sequence of [role, v, m]: value v drawn from [0, m); scope: kind of
\* object and secret. parts: published elements and responses of real groups.
\* values of one group, not of the vectors (those are many)
Single(e) == {j \in DOMAIN e.vals : e.vals[j].role # "s"}
Pairs(e) == SetToSeq({p \in Single(e) \X Single(e) : p[1] < p[2] /\ e.vals[p[1]].m = e.vals[p[2]].m})
\* how two values of one object relate: difference, sum and quotient
Relate(e, p, how) ==
    LET a == e.vals[p[1]].v   b == e.vals[p[2]].v   m == e.vals[p[1]].m
    IN <<e.vals[p[1]].role, e.vals[p[2]].role, how,
         IF how = 0 THEN BMod(BSub(a, b), m)
         ELSE IF how = 1 THEN BMod(BAdd(a, b), m)
         ELSE IF BMod(m, "2") = "1" THEN BMod(BMul(a, BInv(b, m)), m) ELSE a>>
Drawn(e) == IF e.ev = "fresh" THEN [j \in DOMAIN e.vals |-> e.vals[j].v]
            ELSE IF e.ev = "published" THEN e.parts ELSE <<>>
Diffs(e) == IF e.ev = "fresh" THEN LET ps == TLCEval(Pairs(e)) IN TLCEval([j \in 1..(3 * Len(ps)) |-> Relate(e, ps[(j + 2) \div 3], j % 3)]) ELSE <<>>

\* the event at which something drawn before is used again
RepeatAt == FirstRepeat(TLCEval([k \in 1..Len(Trace) |-> Drawn(Trace[k])]))
\* (an offset that recurs shows in any share of the events)
DiffAt == FirstRepeat(TLCEval([k \in 1..Len(Trace) |-> IF k % 6 = 0 THEN Diffs(Trace[k]) ELSE <<>>]))
New == i + 1 # RepeatAt /\ i + 1 # DiffAt

Vals == E.vals
V(j) == Vals[j].v
RECURSIVE MarkAll(_, _)
MarkAll(h, j) ==
    IF j = 0 THEN h
    ELSE MarkAll(Mark(Mark(h, <<E.scope, Vals[j].role, "high">>, Octile(V(j), Vals[j].m)),
                      <<E.scope, Vals[j].role, "low">>, Residue(V(j))), j - 1)

Fresh == /\ Ev("fresh")
         /\ \A j \in DOMAIN Vals : Proper(V(j), Vals[j].m)
         /\ New
         /\ hist' = TLCEval(MarkAll(hist, Len(Vals)))
Published == Ev("published") /\ New /\ UNCHANGED hist

\* after enough draws of a kind: every part of the range occurred
Covered == /\ Ev("covered")
           /\ \A j \in DOMAIN E.roles : \A side \in {"high", "low"} :
                 <<E.scope, E.roles[j], side>> \in DOMAIN hist /\ hist[<<E.scope, E.roles[j], side>>] = Parts
           /\ hist' = EmptyHist

\* foot[j]: the pieces of the source of randomness that value j depends on,
\* need[j]: how many pieces a value of its range takes
Tied == /\ Ev("tied")
        /\ \/ E.opaque
           \/ Independent([j \in DOMAIN E.foot |-> ToSet(E.foot[j])], E.need)
        /\ UNCHANGED hist

Next == Fresh \/ Tied \/ Published \/ Covered \/ (i = Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
