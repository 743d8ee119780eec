--------------------------- MODULE EqProofTrace ---------------------------
(* Validates recorded equality proofs against EqProof.                      *)
(* WHAT selects the obligations: "sound" (completeness, relations, forged   *)
(* and tampered transcripts), "window" (responses and the abort window),    *)
(* "setup" (parameter choices), "bind" (acceptance only if all holds).      *)
EXTENDS EqProof, Json, IOUtils, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE)
P == IOEnv.ORDERFF
Q == IOEnv.ORDER
What == IOEnv.WHAT

VARIABLES i, hist
vars == <<i, hist>>
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Bind == What = "bind"
Sound == What \in {"sound", "bind"}
Honest == What = "sound"
Window == What \in {"window", "bind"}
\* what the verdict "accept" has to mean
Means(verdict, ok) == IF Bind THEN (verdict = "accept") => ok ELSE (verdict = "accept") = ok
SetupW == What = "setup"

\* hist: per parameter tag, the parts of the window met so far, per secret
Init == i = 0 /\ hist = <<>>

St(e) == [Y |-> e.Y, Xp |-> e.Xp, Xq1 |-> e.Xq1, Xq2 |-> e.Xq2]
HonestSt(e) == [Y |-> Enc(e.x, e.rp).U, Xp |-> Enc(e.x, e.rp).V, Xq1 |-> Ped(e.x, e.rq1), Xq2 |-> Ped(e.x, e.rq2)]

\* An honest proof over the symbolic groups: it satisfies all relations for
\* the statement made of the secret and the randomness, the response is in
\* the window, and it is accepted.
Prove == /\ Ev("prove")
         /\ LET bb == Bb(E.bx, E.bc, E.bg)
                st == HonestSt(E)
            IN /\ Honest => /\ E.verdict = "accept"
                           /\ Relations(st, E)
                           \* (by chance with probability 2^-100)
                           /\ (E.bc >= 200 => BLe(BPow2(E.bc - 100), E.c))
                           \* the nonce is one integer in all three commitments
                           /\ FP!Coef(E.Kp, "G") = ModP(BSub(E.z, BMul(E.c, E.x)))
                           /\ FQ!Coef(E.Kq1, "G") = ModQ(BSub(E.z, BMul(E.c, E.x)))
               /\ Window /\ ~Bind =>
                            /\ E.verdict \in {"accept", "reject"}
                            /\ InWindow(E.z, E.bx, E.bc, bb)
         /\ UNCHANGED hist

\* the equations, with statement and first message as unknowns
UnkP(l) == FP!Term("1", l)
Generic == [Y |-> UnkP("Y"), Xp |-> UnkP("Xp"), Xq1 |-> UnkP("Xq1"), Xq2 |-> UnkP("Xq2")]
GenericP(e) == [W |-> UnkP("W"), Kp |-> UnkP("Kp"), Kq1 |-> UnkP("Kq1"), Kq2 |-> UnkP("Kq2"),
                c |-> e.c, z |-> e.z, sp |-> e.sp, sq1 |-> e.sq1, sq2 |-> e.sq2]
Equations ==
    /\ Ev("equations")
    /\ Sound =>
         LET g == GenericP(E)
             y == RelY(Generic, g)   p == RelP(Generic, g)
             q1 == RelQ1(Generic, g) q2 == RelQ2(Generic, g)
             cp == TLCEval([k \in 1..Len(E.ff) |-> <<NegP(FP!Coef(E.ff[k], "W")), NegP(FP!Coef(E.ff[k], "Kp"))>>])
             cq == TLCEval([k \in 1..Len(E.ec) |-> <<NegQ(FQ!Coef(E.ec[k], "Kq1")), NegQ(FQ!Coef(E.ec[k], "Kq2"))>>])
             fp == {k \in 1..Len(E.ff) : FP!FEq(E.ff[k], FP!FAdd(FP!FScale(cp[k][1], y), FP!FScale(cp[k][2], p)))}
             fq == {k \in 1..Len(E.ec) : FQ!FEq(E.ec[k], FQ!FAdd(FQ!FScale(cq[k][1], q1), FQ!FScale(cq[k][2], q2)))}
         IN /\ Bind \/ (fp = 1..Len(E.ff) /\ fq = 1..Len(E.ec))
            /\ \E a, b \in fp : FP!Sub(MulP(cp[a][1], cp[b][2]), MulP(cp[a][2], cp[b][1])) # "0"
            /\ \E a, b \in fq : FQ!Sub(MulQ(cq[a][1], cq[b][2]), MulQ(cq[a][2], cq[b][1])) # "0"
    /\ UNCHANGED hist

\* any failing comparison rejects
Comparison == Ev("comparison") /\ (Sound => E.verdict = "reject") /\ UNCHANGED hist

\* Which challenge values the verifier takes for one transcript (all 2^bc
\* tried, group relations answered "equal"): exactly one.
Challenges == Ev("challenges") /\ (Sound => E.n = E.total /\ Len(E.accepted) \in (IF Bind THEN {0, 1} ELSE {1})) /\ UNCHANGED hist

\* The derived challenge has bc bits, none of which is always the same.
AllBits(one, n) == \A b \in 0..(n - 1) : {BBit(one[k], b) : k \in 1..Len(one)} = {0, 1}
ChallengeBits == /\ Ev("challengebits")
                 /\ Sound => /\ AllBits(E.es, E.bc)
                             /\ \A k \in 1..Len(E.es) : BLt(E.es[k], BPow2(E.bc))
                 /\ UNCHANGED hist

\* a challenge differing from the derived one, at full length
OtherChallenge == Ev("otherchallenge") /\ (Sound => E.verdict = "reject") /\ UNCHANGED hist

\* A transcript with its verdict. derived says whether the carried challenge
\* is the one the verifier derives.
Judge == /\ Ev("judge")
         /\ Sound => Means(E.verdict, Accepts(St(E), E, E.derived, E.bx, E.bc, Bb(E.bx, E.bc, E.bg)))
         /\ E.verdict \in {"accept", "reject"}
         /\ UNCHANGED hist

\* The same dishonest strategy, played several times independently against
\* statements in which the secrets differ: each play wins with the
\* probability of guessing the challenge, so they do not all win.
Forgery == /\ Ev("forgery")
           /\ Sound => ~ \A k \in 1..Len(E.plays) :
                          LET p == E.plays[k] IN p.verdict = "accept" /\ ~SameSecret(p.Y, p.Xp, p.Xq1, p.Xq2)
           /\ UNCHANGED hist

\* Range check on the response, everything else in order.
WindowCheck == /\ Ev("window")
               /\ Window => Means(E.verdict, InWindow(E.z, E.bx, E.bc, Bb(E.bx, E.bc, E.bg)))
               /\ UNCHANGED hist

\* Sixteenths of the window in which the responses of many proofs for one
\* secret fell. Every part of the window occurs, whatever the secret; and of
\* the one-time value behind a response, every low bit takes both values.
Part(z, bx, bc, bb) ==
    BToInt(BDiv(BMul(BSub(z, WindowLo(bx, bc)), "16"), BSub(WindowHi(bx, bc, bb), WindowLo(bx, bc))))
\* and, where many responses were seen, no eighth holds far fewer of them than
\* an even mask ever leaves there
EvenParts(part) == /\ {part[k] : k \in 1..Len(part)} = 0..15
                   /\ Len(part) >= 800 =>
                         \A q \in 0..7 : 1000 * Cardinality({k \in 1..Len(part) : part[k] \div 2 = q}) >= 45 * Len(part)
Spread == /\ Ev("spread")
          /\ Window /\ ~Bind =>
                       /\ \A k \in 1..Len(E.zs) : InWindow(E.zs[k], E.bx, E.bc, Bb(E.bx, E.bc, E.bg))
                       /\ EvenParts(TLCEval([k \in 1..Len(E.zs) |-> Part(E.zs[k], E.bx, E.bc, Bb(E.bx, E.bc, E.bg))]))
                       /\ AllBits(TLCEval([k \in 1..Len(E.zs) |-> BSub(E.zs[k], BMul(E.cs[k], E.x))]), E.bx + E.bc)
                       /\ Cardinality({E.ks[k] : k \in 1..Len(E.ks)}) = Len(E.ks)
          /\ UNCHANGED hist

\* Parameter choices: what setup accepts is usable, and then works.
Setup == /\ Ev("setup")
         /\ SetupW => /\ E.result \in {"ok", "error"}
                      /\ (E.result = "ok") =>
                            /\ Usable(E.bx, E.bc, E.bg, E.lo, E.hi)
                            /\ E.bb = Bb(E.bx, E.bc, E.bg)
                            /\ \A k \in 1..Len(E.works) : E.works[k] = "accept"
         /\ UNCHANGED hist

\* Real groups: honest accepted (also after JSON), each damaged one rejected.
Real == /\ Ev("real")
        /\ Honest => E.honest = "accept" /\ E.json = "accept"
        /\ Sound => \A k \in 1..Len(E.damaged) : E.damaged[k] = "reject"
        /\ (Window /\ ~Bind) => InWindow(E.z, E.bx, E.bc, Bb(E.bx, E.bc, E.bg))
        /\ UNCHANGED hist

\* a prover that gives up, or never stops trying
NoProof == Ev("noproof") /\ Bind /\ UNCHANGED hist

Next == Prove \/ Equations \/ Comparison \/ Challenges \/ ChallengeBits \/ OtherChallenge \/ Judge \/ Forgery \/ WindowCheck
        \/ Spread \/ Setup \/ Real \/ NoProof \/ (i = Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
