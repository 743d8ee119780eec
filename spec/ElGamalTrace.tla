---------------------------- MODULE ElGamalTrace ----------------------------
(* Recorded encryptions, over the symbolic group (elements as forms in G    *)
(* and PK) and over real groups with a known key, and combinations.         *)
EXTENDS ElGamal, FiniteSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, boxes
vars == <<i, boxes>>
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Ord == IOEnv.ORDERFF
None == [x \in {} |-> 0]
Init == i = 0 /\ boxes = None
Coef(f, l) == IF l \in DOMAIN f THEN f[l] ELSE "0"
Within(f, ls) == \A l \in DOMAIN f : l \in ls \/ f[l] = "0"

\* PK a generator of its own: the key is an unknown
Encrypted == /\ Ev("encrypt")
             /\ Randomness(E.r)
             /\ Within(E.U, {"G"}) /\ Within(E.V, {"G", "PK"})
             /\ Coef(E.U, "G") = E.r /\ Coef(E.V, "PK") = E.r
             /\ Coef(E.V, "G") = BOf(E.m)
             /\ E.kept
             /\ boxes' = boxes @@ (E.id :> [u |-> E.r, m |-> BOf(E.m)])
\* a combination of recorded ones, with multiplicities
RECURSIVE Tot(_, _, _)
Tot(ids, f, k) == IF k = 0 THEN "0" ELSE BMod(BAdd(Tot(ids, f, k - 1), IF f = "u" THEN boxes[ids[k]].u ELSE boxes[ids[k]].m), Ord)
Combined == /\ Ev("combine")
            /\ Coef(E.U, "G") = Tot(E.ids, "u", Len(E.ids)) /\ Within(E.U, {"G"})
            /\ Coef(E.V, "PK") = Tot(E.ids, "u", Len(E.ids)) /\ Coef(E.V, "G") = Tot(E.ids, "m", Len(E.ids))
            /\ Within(E.V, {"G", "PK"})
            /\ UNCHANGED boxes
\* real groups: order, key and randomness known; the harness compares elements
\* with the powers of g the specification prescribes
RealEnc == /\ Ev("realencrypt")
           /\ BLe("1", E.r) /\ BLt(E.r, E.order)
           /\ E.uIs = E.r /\ E.vIs = BMod(BAdd(BOf(E.m), BMul(E.r, E.key)), E.order)
           /\ E.uEq /\ E.vEq /\ E.plainEq /\ E.kept
           /\ UNCHANGED boxes
RealSum == /\ Ev("realsum")
           /\ E.total = E.want /\ E.equal
           /\ UNCHANGED boxes
Reset == Ev("session") /\ boxes' = None
Next == Encrypted \/ Combined \/ RealEnc \/ RealSum \/ Reset \/ (i = Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
