-------------------------- MODULE TranscriptTrace --------------------------
(* Validates which challenges of the implementation change when a component *)
(* of a transcript changes, against the schedule of the protocol.           *)
EXTENDS Transcript, BigScalars, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, s
vars == <<i, s>>
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Rng(q) == {q[j] : j \in 1..Len(q)}
NoSteps == <<>>
NoDeps == <<>>

Init == i = 0 /\ s = [kind |-> "none"] /\ fixed = {} /\ seen = {} /\ early = {}

\* the schedules in force: a range proof contains a product argument whose
\* statement is P and c (its generators are the verifier's)
Sched(e) == IF e.kind = "range" THEN <<RangeSteps(e.m), ProductSteps(0, e.k)>>
            ELSE IF e.kind = "product" THEN <<ProductSteps(e.n, e.k)>>
            ELSE <<EqualSteps>>

\* prover and verifier derive the same challenges: the honest proof verifies
Session == /\ Ev("session") /\ E.verdict = "accept"
           /\ s' = [kind |-> E.kind, sched |-> Sched(E)]

\* every challenge is drawn, and no two of them coincide
Drawn == /\ Ev("drawn")
         /\ LET all == UNION {Challenges(s.sched[j]) : j \in 1..Len(s.sched)} IN
              /\ DOMAIN E.after = all
              /\ \A a, b \in all : a # b => E.after[a] # E.after[b]
         /\ UNCHANGED s

\* A challenge takes its values from the whole of its space: over many
\* transcripts, none of its bits is always the same.
BothWays(vals, n) == \A b \in 0..(n - 1) : {BBit(vals[k], b) : k \in 1..Len(vals)} = {0, 1}
Spread == /\ Ev("spread")
          /\ \A ch \in DOMAIN E.drawn : BothWays(E.drawn[ch], E.bits)
          /\ UNCHANGED s

\* no transcript has a challenge from a small part of the space (one in 2^100
\* is this small by chance)
Large(c) == BLe(BPow2(150), c)
\* components changed, exchanged, or with a moved boundary: every challenge
\* drawn after one of them changes
Bind == /\ Ev("bind")
        /\ \A j \in 1..Len(s.sched) : \A ch \in Challenges(s.sched[j]) :
              (Rng(E.comps) \cap Before(s.sched[j], ch)) # {} => E.before[ch] # E.after[ch] /\ Large(E.after[ch])
        /\ UNCHANGED s

\* the equality proof: the carried challenge has to be the one of the transcript
Carried == /\ Ev("carried") /\ s.kind = "equal"
           /\ LET touched == (Rng(E.comps) \cap (Before(EqualSteps, "e") \cup {"challenge"})) # {} IN
                IF touched THEN E.verdict = "reject" ELSE E.verdict = "accept"
           /\ UNCHANGED s

\* the same with challenges so short that two may coincide by chance
Coarse == /\ Ev("coarse") /\ s.kind = "equal"
          /\ (Rng(E.comps) \cap Before(EqualSteps, "e")) # {} => \E j \in 1..Len(E.same) : ~E.same[j]
          /\ UNCHANGED s

\* a changed transcript that is refused before any challenge is drawn
Refused == Ev("refused") /\ UNCHANGED s
Opaque == Ev("opaque") /\ UNCHANGED s

Next == /\ (Session \/ Drawn \/ Spread \/ Bind \/ Carried \/ Coarse \/ Refused \/ Opaque \/ (i = Len(Trace) /\ UNCHANGED <<i, s>>))
        /\ UNCHANGED tv
Spec == Init /\ [][Next]_<<vars, tv>>
=============================================================================
