---------------------------- MODULE RangeProof ----------------------------
(* Bulletproofs range proofs, single (m = 1) and aggregated: the prover     *)
(* shows that m committed values lie in [0, 2^n).                           *)
(*                                                                          *)
(* The definitions give every message the protocol prescribes for a         *)
(* witness and challenges, and the relations a verifier has to check.       *)
EXTENDS InnerProduct

\* --- vectors -------------------------------------------------------------
Gs(N) == TLCEval([i \in 1..N |-> GenG(i)])
Hs(N) == TLCEval([i \in 1..N |-> GenH(i)])
Powers(y, N) == TLCEval([i \in 1..N |-> Pow(y, i - 1)])
\* h'_i = h_i^(y^-(i-1))
HPrime(y, N) == LET yi == Inv(y) IN TLCEval([i \in 1..N |-> Term(Pow(yi, i - 1), Name("h", i - 1))])
Owner(i, n) == ((i - 1) \div n) + 1              \* whose bit position i is
BitPos(i, n) == (i - 1) % n
\* z^(1+j) 2^k for the k-th bit of value j
ZTwo(z, n, m) == TLCEval([i \in 1..(n * m) |-> Mul(Pow(z, 1 + Owner(i, n)), Pow(Of(2), BitPos(i, n)))])

Delta(y, z, n, m) ==
    LET N == n * m
        ys == Powers(y, N)
        t2 == SumTo(Powers(Of(2), n), n)
        zs == [j \in 1..m |-> Mul(Pow(z, j + 2), t2)]
    IN Sub(Mul(Sub(z, Mul(z, z)), Sum(ys)), Sum(zs))

\* --- prover --------------------------------------------------------------
\* witness: aL (bits), aR = aL - 1, sL, sR, alpha, rho, gamma (per value),
\* tau1, tau2 and the values themselves as scalars.
CommitV(v, gamma) == FAdd(Term(v, "G"), Term(gamma, "H"))
CommitVec(l, r, blind) == FAdd(FAdd(Term(blind, "H"), FExp(Gs(Len(l)), l)), FExp(Hs(Len(r)), r))

L0(w, z) == TLCEval([i \in 1..Len(w.aL) |-> Sub(w.aL[i], z)])
R0(w, y, z, n, m) == LET zt == ZTwo(z, n, m) ys == Powers(y, n * m)
    IN TLCEval([i \in 1..(n * m) |-> Add(Mul(ys[i], Add(w.aR[i], z)), zt[i])])
R1(w, y) == LET ys == Powers(y, Len(w.sR)) IN TLCEval([i \in 1..Len(w.sR) |-> Mul(ys[i], w.sR[i])])
PolyT1(w, y, z, n, m) == Add(Inner(w.sL, R0(w, y, z, n, m)), Inner(L0(w, z), R1(w, y)))
PolyT2(w, y) == Inner(w.sL, R1(w, y))
EvalL(w, z, x) == LET l0 == L0(w, z) IN TLCEval([i \in 1..Len(w.aL) |-> Add(l0[i], Mul(w.sL[i], x))])
EvalR(w, y, z, x, n, m) == LET r0 == R0(w, y, z, n, m) r1 == R1(w, y)
    IN TLCEval([i \in 1..(n * m) |-> Add(r0[i], Mul(r1[i], x))])
TauX(w, z, x) == LET g == [j \in 1..Len(w.gamma) |-> Mul(Pow(z, 1 + j), w.gamma[j])]
    IN Add(Add(Mul(w.tau2, Mul(x, x)), Mul(w.tau1, x)), Sum(g))
MuOf(w, x) == Add(w.alpha, Mul(w.rho, x))

\* --- verifier ------------------------------------------------------------
\* Three linear forms that must vanish (paper: (65), (66)/(67), and the
\* inner-product relation), one scalar equation and the number of rounds.
RelPoly(p, y, z, x, n, m) ==
    LET vz == [j \in 1..m |-> FScale(Pow(z, 1 + j), p.V[j])]
        lhs == FAdd(Term(p.that, "G"), Term(p.taux, "H"))
        rhs == FAdd(FAdd(FAdd(FSum(vz), Term(Delta(y, z, n, m), "G")), FScale(x, p.T1)), FScale(Mul(x, x), p.T2))
    IN FSub(lhs, rhs)

RelVec(p, y, z, x, n, m) ==
    LET N == n * m
        zt == ZTwo(z, n, m)
        yi == Inv(y)
        gz == TLCEval([l \in {Name("g", i - 1) : i \in 1..N} |-> Neg(z)])
        hz == [i \in 1..N |-> Term(Add(z, Mul(zt[i], Pow(yi, i - 1))), Name("h", i - 1))]
        lP == FAdd(FAdd(FAdd(p.A, FScale(x, p.S)), gz), FSum(hz))
    IN FSub(lP, FAdd(Term(p.mu, "H"), p.P))

RelIP(p, y, xu, xs, n, m) ==
    Relation(p.P, p.cc, xu, p.L, p.R, xs, p.a, p.b, Gs(n * m), HPrime(y, n * m), Term(One, "U"))

ScalarOK(p) == p.that = p.cc
RoundsOK(p, n, m) == IsPow2(n * m) /\ Len(p.L) = Log2(n * m) /\ Len(p.R) = Log2(n * m)

Accepts(p, y, z, x, xu, xs, n, m) ==
    /\ RoundsOK(p, n, m)
    /\ ScalarOK(p)
    /\ IsNil(RelPoly(p, y, z, x, n, m))
    /\ IsNil(RelVec(p, y, z, x, n, m))
    /\ IsNil(RelIP(p, y, xu, xs, n, m))

\* --- what the relations are for ------------------------------------------
\* The polynomial identity in (y, z) that the relations enforce with
\* overwhelming probability: it holds for all challenges exactly when the
\* committed vectors are the bits of the committed values.
ConstraintHolds(aL, aR, v, y, z, n, m) ==
    LET N == n * m
        ys == Powers(y, N)
        zt == ZTwo(z, n, m)
        l == TLCEval([i \in 1..N |-> Sub(aL[i], z)])
        r == TLCEval([i \in 1..N |-> Add(Mul(ys[i], Add(aR[i], z)), zt[i])])
        vs == [j \in 1..m |-> Mul(Pow(z, 1 + j), v[j])]
    IN Inner(l, r) = Add(Sum(vs), Delta(y, z, n, m))

BitsOf(aL, aR, v, n, m) ==
    /\ \A i \in 1..(n * m) : aL[i] \in {Zero, One} /\ aR[i] = Sub(aL[i], One)
    /\ \A j \in 1..m : v[j] = Inner(SubSeq(aL, (j - 1) * n + 1, j * n), Powers(Of(2), n))
=============================================================================
