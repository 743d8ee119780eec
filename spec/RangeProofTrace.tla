-------------------------- MODULE RangeProofTrace --------------------------
(* Validates recorded range proofs of the implementation, message by       *)
(* message, against RangeProof. A trace is a sequence of sessions; each    *)
(* session is one proof: what the prover published, as linear forms, the   *)
(* challenges the verifier used, the verdict, and the equations the        *)
(* verifier evaluated.  A step is possible only if the recorded message is *)
(* the one the protocol prescribes; TLC reports the first that is not.     *)
(* SIDE selects whose obligations are checked: "prover" (completeness and  *)
(* the prescribed messages), "verifier" (acceptance if and only if the     *)
(* relations hold, and the equations behind it), "both", or "bind"         *)
(* (acceptance only if the relations hold).                                *)
EXTENDS RangeProof, BigScalars, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Q == IOEnv.ORDER

FAddQ(a, b) == BMod(BAdd(a, b), Q)
FMulQ(a, b) == BMod(BMul(a, b), Q)
FNegQ(a) == BMod(BSub("0", a), Q)
FInvQ(a) == BInv(a, Q)
FOfQ(i) == BMod(BOf(i), Q)

VARIABLES i, ph, s
vars == <<i, ph, s>>

E == Trace[i + 1]
Prover == IOEnv.SIDE \in {"prover", "both"}
Verifier == IOEnv.SIDE \in {"verifier", "both", "bind"}
Bind == IOEnv.SIDE = "bind"
\* what the verdict "accept" has to mean
Means(verdict, ok) == IF Bind THEN (verdict = "accept") => ok ELSE (verdict = "accept") = ok
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1

Red(a) == BMod(a, Q)

RECURSIVE BitAt(_, _)
BitAt(v, k) == IF k = 0 THEN BMod(v, "2") ELSE BitAt(BDiv(v, "2"), k - 1)
\* bits of all values, little endian, concatenated
AllBits(v, n, m) == TLCEval([k \in 1..(n * m) |-> BitAt(v[Owner(k, n)], BitPos(k, n))])

InRange(v, n) == BLe("0", v) /\ BLt(v, BPow2(n))

Init == i = 0 /\ ph = "idle" /\ s = [n |-> 0]

Begin == /\ Ev("begin") /\ ph \in {"idle", "done"}
         /\ ph' = "begun"
         /\ s' = [n |-> E.n, m |-> E.m, v |-> E.v, gamma |-> E.gamma]

\* The commitments open to the values under the returned randomness, A
\* commits to their bits, S to arbitrary vectors.
Commit ==
    /\ Ev("commit") /\ ph = "begun"
    /\ Prover => /\ \A j \in 1..s.m : InRange(s.v[j], s.n)
                 /\ Len(E.V) = s.m
                 /\ \A j \in 1..s.m : FEq(E.V[j], CommitV(Red(s.v[j]), Red(s.gamma[j])))
    /\ LET N == s.n * s.m
           bits == AllBits(s.v, s.n, s.m)
           w == [aL |-> bits,
                 aR |-> TLCEval([k \in 1..N |-> Sub(bits[k], One)]),
                 sL |-> TLCEval([k \in 1..N |-> Coef(E.S, Name("g", k - 1))]),
                 sR |-> TLCEval([k \in 1..N |-> Coef(E.S, Name("h", k - 1))]),
                 alpha |-> Coef(E.A, "H"), rho |-> Coef(E.S, "H"),
                 gamma |-> [j \in 1..s.m |-> Red(s.gamma[j])]]
       IN /\ Prover => FEq(E.A, CommitVec(w.aL, w.aR, w.alpha)) /\ FEq(E.S, CommitVec(w.sL, w.sR, w.rho))
          /\ s' = [n |-> s.n, m |-> s.m, v |-> s.v, w |-> w, V |-> E.V, A |-> E.A, S |-> E.S]
    /\ ph' = "committed"

ChalYZ == /\ Ev("yz") /\ ph = "committed"
          /\ E.y # Zero /\ E.z # Zero
          /\ s' = s @@ [y |-> E.y, z |-> E.z]
          /\ ph' = "yz"

Poly == /\ Ev("poly") /\ ph = "yz"
        /\ LET t1 == PolyT1(s.w, s.y, s.z, s.n, s.m)
               t2 == PolyT2(s.w, s.y)
           IN Prover => FEq(E.T1, CommitV(t1, Coef(E.T1, "H"))) /\ FEq(E.T2, CommitV(t2, Coef(E.T2, "H")))
        /\ s' = [s EXCEPT !.w = @ @@ [tau1 |-> Coef(E.T1, "H"), tau2 |-> Coef(E.T2, "H")]]
                   @@ [T1 |-> E.T1, T2 |-> E.T2]
        /\ ph' = "poly"

ChalX == /\ Ev("x") /\ ph = "poly"
         /\ E.x # Zero
         /\ s' = s @@ [x |-> E.x]
         /\ ph' = "x"

Answer == /\ Ev("answer") /\ ph = "x"
          /\ LET l == EvalL(s.w, s.z, s.x)
                 r == EvalR(s.w, s.y, s.z, s.x, s.n, s.m)
                 hp == HPrime(s.y, s.n * s.m)
             IN /\ Prover => /\ E.that = Inner(l, r)
                             /\ E.cc = E.that
                             /\ E.taux = TauX(s.w, s.z, s.x)
                             /\ E.mu = MuOf(s.w, s.x)
                             /\ FEq(E.P, FAdd(FExp(Gs(Len(l)), l), FExp(hp, r)))
                /\ s' = s @@ [that |-> E.that, cc |-> E.cc, taux |-> E.taux, mu |-> E.mu, P |-> E.P,
                              fa |-> l, fb |-> r, fg |-> Gs(Len(l)), fh |-> hp, L |-> <<>>, R |-> <<>>, xs |-> <<>>]
          /\ ph' = "answered"

ChalU == /\ Ev("xu") /\ ph = "answered"
         /\ s' = s @@ [xu |-> E.xu, ux |-> Term(E.xu, "U")]
         /\ ph' = "fold"

Round == /\ Ev("round") /\ ph = "fold" /\ Len(s.fa) > 1
         /\ E.xi # Zero
         /\ Prover => /\ FEq(E.L, RoundL(s.fa, s.fb, s.fg, s.fh, s.ux))
                      /\ FEq(E.R, RoundR(s.fa, s.fb, s.fg, s.fh, s.ux))
         /\ s' = [s EXCEPT !.fa = FoldA(@, E.xi), !.fb = FoldB(@, E.xi), !.fg = FoldG(@, E.xi), !.fh = FoldH(@, E.xi),
                           !.L = Append(@, E.L), !.R = Append(@, E.R), !.xs = Append(@, E.xi)]
         /\ ph' = "fold"

Final == /\ Ev("final") /\ ph = "fold" /\ Len(s.fa) = 1
         /\ Prover => E.a = s.fa[1] /\ E.b = s.fb[1]
         /\ s' = s @@ [a |-> E.a, b |-> E.b]
         /\ ph' = "final"

\* the honest proof satisfies the relations of the specification, and the
\* implementation accepts it
Verdict == /\ Ev("verdict") /\ ph = "final"
           /\ Prover => E.verdict = "accept"
           /\ Verifier => Means(E.verdict, Accepts(s, s.y, s.z, s.x, s.xu, s.xs, s.n, s.m))
           /\ UNCHANGED s /\ ph' = "judged"

\* The equations the verifier evaluated, with the proof elements as unknowns,
\* span exactly the same space as the relations of the specification.
Generic(sess) ==
    [V |-> [j \in 1..sess.m |-> Term(One, Name("V", j - 1))],
     A |-> Term(One, "A"), S |-> Term(One, "S"), T1 |-> Term(One, "T1"), T2 |-> Term(One, "T2"), P |-> Term(One, "P"),
     L |-> [j \in 1..Len(sess.xs) |-> Term(One, Name("L", j - 1))],
     R |-> [j \in 1..Len(sess.xs) |-> Term(One, Name("R", j - 1))],
     that |-> sess.that, cc |-> sess.cc, taux |-> sess.taux, mu |-> sess.mu, a |-> sess.a, b |-> sess.b]

Det3(u, v, w) ==
    Add(Sub(Mul(u[1], Sub(Mul(v[2], w[3]), Mul(v[3], w[2]))),
            Mul(u[2], Sub(Mul(v[1], w[3]), Mul(v[3], w[1])))),
        Mul(u[3], Sub(Mul(v[1], w[2]), Mul(v[2], w[1]))))

SpanOK(rows, sess) ==
    LET g == Generic(sess)
        r1 == RelPoly(g, sess.y, sess.z, sess.x, sess.n, sess.m)
        r2 == RelVec(g, sess.y, sess.z, sess.x, sess.n, sess.m)
        r3 == RelIP(g, sess.y, sess.xu, sess.xs, sess.n, sess.m)
        r23 == FAdd(r2, r3)        \* the P of r2 and r3 cancel
        nx == Inv(Neg(sess.x))
        co == TLCEval([k \in 1..Len(rows) |-> <<Mul(Coef(rows[k], "T1"), nx), Coef(rows[k], "A"), Coef(rows[k], "P")>>])
        fine == {k \in 1..Len(rows) : FEq(rows[k], FAdd(FAdd(FScale(co[k][1], r1), FScale(co[k][2], r23)), FScale(co[k][3], r3)))}
    IN /\ Bind \/ fine = 1..Len(rows)
       /\ \E a, b, c \in fine : Det3(co[a], co[b], co[c]) # Zero

Equations == /\ Ev("equations") /\ ph = "judged"
             /\ Verifier => SpanOK(E.rows, s)
             /\ UNCHANGED s /\ ph' = "done"

\* if any one comparison fails the proof is rejected
Comparison == /\ Ev("comparison") /\ ph = "done"
              /\ Verifier => E.verdict = "reject"
              /\ UNCHANGED <<ph, s>>

\* The equations could not be read off: only the verdict is known.
Opaque == /\ Ev("opaque") /\ ph = "committed"
          /\ Prover => E.verdict = "accept"
          /\ UNCHANGED s /\ ph' = "done"

\* One submitted transcript, honest or not, with the challenges the verifier
\* derives for it. Accepted if and only if the relations hold; and, because
\* the commitments are visible forms here, only if the values are in range.
Judge == /\ Ev("judge") /\ ph \in {"idle", "done"}
         /\ Verifier => /\ Means(E.verdict, Accepts(E, E.y, E.z, E.x, E.xu, E.xs, E.n, E.m))
                        /\ E.verdict \in {"accept", "reject"}
                        /\ (E.verdict = "accept") => \A j \in 1..E.m : InRange(Coef(E.V[j], "G"), E.n)
         /\ UNCHANGED s /\ ph' = "done"

\* The equations behind the verdict on a transcript with arbitrary, possibly
\* degenerate contents; the verdict follows every single comparison.
Probe == /\ Ev("probe") /\ ph \in {"idle", "done"}
         /\ Verifier => SpanOK(E.rows, E) /\ \A k \in 1..Len(E.each) : E.each[k] = "reject"
         /\ UNCHANGED s /\ ph' = "done"

\* A transcript that no verifier may accept: the wrong number of rounds, or a
\* claimed evaluation different from the proven inner product, while every
\* group comparison the verifier makes is answered with "equal".
Shape == /\ Ev("shape") /\ ph \in {"idle", "done"}
         /\ Verifier => /\ E.verdict \in {"accept", "reject"}
                        /\ (E.verdict = "accept") => RoundsOK(E, E.n, E.m) /\ ScalarOK(E)
         /\ UNCHANGED s /\ ph' = "done"

\* Whatever number of commitments a proof comes with, a verifier that accepts
\* it for suitable elements has related every one of them to the rest.
Commitments == /\ Ev("commitments") /\ ph \in {"idle", "done"}
               /\ Verifier => ((E.verdict = "accept") => {E.used[k] : k \in 1..Len(E.used)} = 1..E.count)
               /\ UNCHANGED s /\ ph' = "done"

\* An honest proof with taux and mu changed: neither the polynomial relation
\* nor the vector relation holds, whatever cancels in their combination.
Compensated == /\ Ev("compensated") /\ ph \in {"idle", "done"}
               /\ Verifier => E.verdict = "reject"
               /\ UNCHANGED s /\ ph' = "done"

\* An attempt whose challenges could not be read off; an accepted commitment
\* is still in range.
Blind == /\ Ev("blind") /\ ph \in {"idle", "done"}
         /\ Verifier => ((E.verdict = "accept") => \A j \in 1..E.m : InRange(Coef(E.V[j], "G"), E.n))
         /\ UNCHANGED s /\ ph' = "done"

\* Real groups: an honest proof of a value in range verifies, directly and
\* after a round trip through JSON, and its commitment opens to the value;
\* a value out of range never verifies.
Real == /\ Ev("real") /\ ph \in {"idle", "done"}
        /\ Prover => LET ok == \A j \in 1..E.m : InRange(E.v[j], E.n) IN
                        ok => E.verdict = "accept" /\ E.json = "accept" /\ E.opens
        /\ Verifier => LET ok == \A j \in 1..E.m : InRange(E.v[j], E.n) IN
                        ~ok => E.verdict # "accept" /\ E.json # "accept"
        /\ UNCHANGED s /\ ph' = "done"

\* The prover failed on a value in range: never allowed by completeness.
NoProof == /\ Ev("noproof") /\ ph \in {"idle", "done"}
           /\ ~Prover
           /\ UNCHANGED s /\ ph' = "done"

Next == \/ NoProof \/ Begin \/ Commit \/ ChalYZ \/ Poly \/ ChalX \/ Answer \/ ChalU \/ Round \/ Final \/ Verdict
        \/ Equations \/ Comparison \/ Opaque \/ Judge \/ Probe \/ Shape \/ Commitments \/ Compensated \/ Blind \/ Real
        \/ (i = Len(Trace) /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars
=============================================================================
