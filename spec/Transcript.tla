---------------------------- MODULE Transcript ----------------------------
(* The order in which the protocols send messages and draw challenges, and  *)
(* what that demands of a challenge computed by hashing: it has to depend   *)
(* on everything that is sent before it is drawn.                           *)
(*                                                                          *)
(* The state machine below is an adversary who fixes messages in any order; *)
(* a hashed challenge is known as soon as its inputs are fixed. Deps says   *)
(* which inputs the hash of each challenge takes. If it takes at least the  *)
(* messages of the schedule, the adversary can never choose a message that  *)
(* the protocol sends before a challenge after having seen it.              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Nm(b, j) == b \o ToString(j)
Send(S) == [send |-> S, draw |-> {}]
Draw(S) == [send |-> {}, draw |-> S]
Names(b, n) == {Nm(b, j) : j \in 0..(n - 1)}
RECURSIVE Rounds(_, _)
Rounds(j, k) == IF j = k THEN <<>> ELSE <<Send({Nm("L", j), Nm("R", j)}), Draw({Nm("x", j)})>> \o Rounds(j + 1, k)

RangeSteps(m) == <<Send(Names("V", m)), Send({"A", "S"}), Draw({"y", "z"}), Send({"T1", "T2"}), Draw({"x"})>>
ProductSteps(n, k) == <<Send(Names("g", n) \cup Names("h", n) \cup {"P", "c"}), Draw({"xu"})>> \o Rounds(0, k)
EqualSteps == <<Send({"Y", "Xp", "Xq1", "Xq2"}), Send({"W", "Kp", "Kq1", "Kq2"}), Draw({"e"})>>

Challenges(steps) == UNION {steps[j].draw : j \in 1..Len(steps)}
Messages(steps) == UNION {steps[j].send : j \in 1..Len(steps)}
Before(steps, ch) == UNION {steps[j].send : j \in {l \in 1..Len(steps) : \E h \in (l + 1)..Len(steps) : ch \in steps[h].draw}}
Required(steps) == [ch \in Challenges(steps) |-> Before(steps, ch)]

------------------------------------------------------------------------------
CONSTANTS Steps, Deps
VARIABLES fixed, seen, early      \* messages fixed, challenges known, violations
tv == <<fixed, seen, early>>

TInit == fixed = {} /\ seen = {} /\ early = {}
Fix(mm) == /\ mm \in Messages(Steps) \ fixed
           /\ fixed' = fixed \cup {mm}
           /\ early' = early \cup {<<mm, ch>> : ch \in {d \in seen : mm \in Before(Steps, d)}}
           /\ UNCHANGED seen
See(ch) == /\ ch \in Challenges(Steps) \ seen /\ Deps[ch] \subseteq fixed
           /\ seen' = seen \cup {ch} /\ UNCHANGED <<fixed, early>>
TNext == (\E mm \in Messages(Steps) : Fix(mm)) \/ (\E ch \in Challenges(Steps) : See(ch))
TSpec == TInit /\ [][TNext]_tv
Ordered == early = {}
=============================================================================
