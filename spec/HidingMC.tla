------------------------------ MODULE HidingMC ------------------------------
(* The published parts are distributed independently of the secret: over a  *)
(* small field, with elements collapsed to what an unbounded observer sees  *)
(* (their discrete logarithms), the views of a range proof for two values   *)
(* are the same multiset over the blinding values. Each blinding value is   *)
(* needed: fix any one of them and the views differ.                        *)
EXTENDS RangeProof, Integers, FiniteSets
CONSTANTS Pr, Few, Hs_    \* the prime; values of y and z; logarithms of H
AddS(a, b) == (a + b) % Pr
MulS(a, b) == (a * b) % Pr
NegS(a) == (Pr - a) % Pr
InvS(a) == CHOOSE i \in 0..(Pr - 1) : (i * a) % Pr = 1
OfS(i) == i % Pr
Fld == 0..(Pr - 1)
Names == {"sL", "sR", "alpha", "rho", "gamma", "tau1", "tau2"}

\* discrete logarithms of the generators
Log(d, f) == LET at(l) == CASE l = "G" -> 1 [] l = "H" -> d.H [] l = "g0" -> d.g [] l = "h0" -> d.h
             IN SumTo([k \in 1..4 |-> LET l == <<"G", "H", "g0", "h0">>[k] IN Mul(Coef(f, l), at(l))], 4)

Witness(v, b) == [aL |-> <<v>>, aR |-> <<Sub(v, One)>>, v |-> <<v>>, sL |-> <<b.sL>>, sR |-> <<b.sR>>,
                  alpha |-> b.alpha, rho |-> b.rho, gamma |-> <<b.gamma>>, tau1 |-> b.tau1, tau2 |-> b.tau2]
\* one bit: the inner-product argument publishes l and r themselves
View(v, b, c, d) ==
    LET w == Witness(v, b)
        l == EvalL(w, c.z, c.x) r == EvalR(w, c.y, c.z, c.x, 1, 1)
    IN <<Log(d, CommitV(v, b.gamma)), Log(d, CommitVec(w.aL, w.aR, b.alpha)), Log(d, CommitVec(w.sL, w.sR, b.rho)),
         Log(d, CommitV(PolyT1(w, c.y, c.z, 1, 1), b.tau1)), Log(d, CommitV(PolyT2(w, c.y), b.tau2)),
         TauX(w, c.z, c.x), MuOf(w, c.x), l[1], r[1], Inner(l, r)>>

VARIABLES c, d, fixed
Nz == Fld \ {0}
Init == /\ c \in [y : Few, z : Few, x : Nz]
        /\ d \in [H : Hs_, g : Nz, h : Nz]
        /\ fixed \in {"none"} \cup Names
Next == UNCHANGED <<c, d, fixed>>
Spec == Init /\ [][Next]_<<c, d, fixed>>

All == [Names -> Fld]
Blinds == IF fixed = "none" THEN All ELSE {b \in All : b[fixed] = 0}
Views(v) == {View(v, b, c, d) : b \in Blinds}
\* no two blindings give the same view, so equal sets are equal distributions
Injective == \A v \in {0, 1} : Cardinality(Views(v)) = Cardinality(Blinds)
Hides == fixed = "none" => Injective /\ Views(0) = Views(1)
(* for generators in general position *)
General == Add(d.g, d.h) # 0
Needed == fixed # "none" /\ General => Views(0) # Views(1)
=============================================================================
