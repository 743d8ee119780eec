--------------------------- MODULE DocumentTrace ---------------------------
(* What the real parsers and verifiers did with documents, judged.          *)
EXTENDS Document, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Init == i = 0

Dmg == {<<E.damage[j].path, E.damage[j].how>> : j \in DOMAIN E.damage}
\* damage to the whole text (path <<>>) is damage to everything
Text == \E x \in Dmg : x[1] = <<>>
Doc == /\ Ev("doc")
       /\ IF Text THEN E.outcome \in {"error", "reject"}
          ELSE E.outcome \in Outcomes(E.kind, E.rounds, Dmg)

\* bytes changed somewhere: accepted only if nothing of what is verified changed
Bytes == Ev("bytes") /\ E.outcome \in {"accept", "error", "reject"} /\ (E.outcome = "accept" /\ E.kind # "ct" => E.before = E.after)

\* an object and what comes back from its document: the same parts, the same verdict
RoundTrip == Ev("roundtrip") /\ E.parsed = "" /\ E.before = E.after /\ E.again = E.after /\ E.verdict = E.back
             /\ E.verdict \in {"accept", "reject"} /\ (E.honest => E.verdict = "accept")

Next == Doc \/ Bytes \/ RoundTrip \/ (i = Len(Trace) /\ UNCHANGED i)
Spec == Init /\ [][Next]_i
=============================================================================
