----------------------------- MODULE SessionWays -----------------------------
(* Histories of Session in which every kind of object is altered in every   *)
(* way and the outcome, a rejection, is asked for again: a verifier that     *)
(* leaves a trace in what it refuses shows in the state or in the verdicts.  *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, SequencesExt
Groups == 4
Ways == 6
Make == <<"prove", "multi", "equal", "cast">>
O(k, p, o, a, new) == [t |-> 0, op |-> k, p |-> p, o |-> o, arg |-> a, new |-> new]
History(k, h) ==
    LET alt(a) == "a" \o ToString(a)
        way(a) == <<O("alter", "", "x", a - 1, alt(a)), O("verify", "", alt(a), 0, ""), O("verify", "", alt(a), 0, ""), O("verify", "", "x", 0, "")>>
    IN <<O("setup", "", "", h % Groups, "p"), O(Make[k], "p", "", 2, "x")>> \o FlattenSeq([a \in 1..Ways |-> way(a)])
Deep == IOEnv.TIER = "thorough"
Out == FlattenSeq([k \in 1..4 |-> IF Deep THEN [h \in 1..Groups |-> History(k, h)] ELSE <<History(k, k)>>])
ASSUME ndJsonSerialize(IOEnv.GEN, Out)
VARIABLE v
Init == v = 0
Next == UNCHANGED v
=============================================================================
