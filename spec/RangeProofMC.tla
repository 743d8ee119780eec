--------------------------- MODULE RangeProofMC ---------------------------
(* The range proof as a protocol between a prover and a verifier, model     *)
(* checked over the integers modulo a small prime. The prover runs the      *)
(* prescribed algorithm on any vectors aL, aR and any committed values, not *)
(* only on bits, with any blinding; the verifier picks any challenges.      *)
EXTENDS RangeProof, Integers, FiniteSets
CONSTANTS Pr,        \* the prime
          Bits, Vals, \* bits per value, number of values
          Blind,     \* blinding values explored
          Chal       \* challenges explored

AddS(a, b) == (a + b) % Pr
MulS(a, b) == (a * b) % Pr
NegS(a) == (Pr - a) % Pr
InvS(a) == CHOOSE i \in 0..(Pr - 1) : (i * a) % Pr = 1
OfS(i) == i % Pr
Fld == 0..(Pr - 1)
Len_ == Bits * Vals
Vec(S) == [1..Len_ -> S]

VARIABLES w, c, ph
vars == <<w, c, ph>>

Init == /\ ph = "commit"
        /\ c = [y |-> 0, z |-> 0, x |-> 0, xu |-> 0, xs |-> <<>>]
        /\ w \in [aL : Vec(Fld), aR : Vec(Fld), v : [1..Vals -> Fld], sL : Vec(Blind), sR : Vec(Blind),
                  alpha : Blind, rho : Blind, gamma : [1..Vals -> Blind], tau1 : Blind, tau2 : Blind]

Challenge1 == ph = "commit" /\ ph' = "poly" /\ \E y, z \in Chal : c' = [c EXCEPT !.y = y, !.z = z] /\ UNCHANGED w
Challenge2 == ph = "poly" /\ ph' = "open" /\ \E x \in Chal : c' = [c EXCEPT !.x = x] /\ UNCHANGED w
Challenge3 == ph = "open" /\ ph' = "fold" /\ \E u \in Chal : c' = [c EXCEPT !.xu = u] /\ UNCHANGED w
Fold == /\ ph = "fold" /\ Len(c.xs) < Log2(Len_)
        /\ \E x \in Chal : c' = [c EXCEPT !.xs = Append(c.xs, x)]
        /\ UNCHANGED <<w, ph>>
Judge == ph = "fold" /\ Len(c.xs) = Log2(Len_) /\ ph' = "done" /\ UNCHANGED <<w, c>>
Next == Challenge1 \/ Challenge2 \/ Challenge3 \/ Fold \/ Judge
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
\* everything the prover sends
RECURSIVE Rounds(_, _, _, _, _, _)
Rounds(a, b, g, h, ux, xs) ==
    IF xs = <<>> THEN [L |-> <<>>, R |-> <<>>, a |-> a[1], b |-> b[1]]
    ELSE LET x == Head(xs)
             t == Rounds(FoldA(a, x), FoldB(b, x), FoldG(g, x), FoldH(h, x), ux, Tail(xs))
         IN [L |-> <<RoundL(a, b, g, h, ux)>> \o t.L, R |-> <<RoundR(a, b, g, h, ux)>> \o t.R, a |-> t.a, b |-> t.b]

Sent(ww, cc) ==
    LET l == EvalL(ww, cc.z, cc.x)
        r == EvalR(ww, cc.y, cc.z, cc.x, Bits, Vals)
        g == Gs(Len_)
        h == HPrime(cc.y, Len_)
        rr == Rounds(l, r, g, h, FScale(cc.xu, Term(One, "U")), cc.xs)
    IN [V |-> [j \in 1..Vals |-> CommitV(ww.v[j], ww.gamma[j])],
        A |-> CommitVec(ww.aL, ww.aR, ww.alpha), S |-> CommitVec(ww.sL, ww.sR, ww.rho),
        T1 |-> CommitV(PolyT1(ww, cc.y, cc.z, Bits, Vals), ww.tau1), T2 |-> CommitV(PolyT2(ww, cc.y), ww.tau2),
        taux |-> TauX(ww, cc.z, cc.x), mu |-> MuOf(ww, cc.x), that |-> Inner(l, r), cc |-> Inner(l, r),
        P |-> FAdd(FExp(g, l), FExp(h, r)), L |-> rr.L, R |-> rr.R, a |-> rr.a, b |-> rr.b]

Accepted == Accepts(Sent(w, c), c.y, c.z, c.x, c.xu, c.xs, Bits, Vals)
Done == ph = "done"

\* an honest prover is always accepted
Complete == Done /\ BitsOf(w.aL, w.aR, w.v, Bits, Vals) => Accepted
\* a prover that follows the algorithm on other vectors or values is accepted
\* exactly when the challenges happen to satisfy the constraint
Exact == Done => (Accepted <=> ConstraintHolds(w.aL, w.aR, w.v, c.y, c.z, Bits, Vals))
\* the closed form of the inner-product relation is what folding prescribes
Folded == Done => LET p == Sent(w, c) g == Gs(Len_) h == HPrime(c.y, Len_) u == Term(One, "U") IN
    /\ FEq(Relation(p.P, p.cc, c.xu, p.L, p.R, c.xs, p.a, p.b, g, h, u),
           RelationByFolding(p.P, p.cc, c.xu, p.L, p.R, c.xs, p.a, p.b, g, h, u))
    /\ IsNil(RelationByFolding(p.P, p.cc, c.xu, p.L, p.R, c.xs, p.a, p.b, g, h, u))
\* every single relation is necessary: change one message and it fails
Bump(f, l) == FAdd(f, Term(One, l))
Altered(p) == {[p EXCEPT !.mu = Add(@, One)], [p EXCEPT !.taux = Add(@, One)], [p EXCEPT !.that = Add(@, One)],
               [p EXCEPT !.cc = Add(@, One)], [p EXCEPT !.A = Bump(@, "G")], [p EXCEPT !.A = Bump(@, "H")], [p EXCEPT !.S = Bump(@, "g0")],
               [p EXCEPT !.T1 = Bump(@, "G")], [p EXCEPT !.T2 = Bump(@, "H")], [p EXCEPT !.P = Bump(@, "h0")], [p EXCEPT !.V[1] = Bump(@, "G")]}
Needed == Done /\ Accepted => \A q \in Altered(Sent(w, c)) : ~Accepts(q, c.y, c.z, c.x, c.xu, c.xs, Bits, Vals)
=============================================================================
