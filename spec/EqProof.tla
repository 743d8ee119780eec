----------------------------- MODULE EqProof ------------------------------
(* The vote-correctness (equality) proof: one integer secret is inside an   *)
(* ElGamal ciphertext (Y, Xp) in one group and inside two Pedersen          *)
(* commitments Xq1, Xq2 in another. Elements are linear forms; names of the *)
(* ElGamal group are "G" and "PK", of the commitment group "G" and "H".     *)
EXTENDS BigScalars, Sequences, FiniteSets, TLC
CONSTANTS OrdP, OrdQ          \* group orders, numerals

AddP(a, b) == BMod(BAdd(a, b), OrdP)
MulP(a, b) == BMod(BMul(a, b), OrdP)
NegP(a) == BMod(BSub("0", a), OrdP)
InvP(a) == BInv(a, OrdP)
AddQ(a, b) == BMod(BAdd(a, b), OrdQ)
MulQ(a, b) == BMod(BMul(a, b), OrdQ)
NegQ(a) == BMod(BSub("0", a), OrdQ)
InvQ(a) == BInv(a, OrdQ)
OfB(i) == BOf(i)
FP == INSTANCE Forms WITH Add <- AddP, Mul <- MulP, Neg <- NegP, Inv <- InvP, Of <- OfB
FQ == INSTANCE Forms WITH Add <- AddQ, Mul <- MulQ, Neg <- NegQ, Inv <- InvQ, Of <- OfB

ModP(a) == BMod(a, OrdP)
ModQ(a) == BMod(a, OrdQ)

\* --- parameters -----------------------------------------------------------
\* bx secret bits, bc challenge bits, bg bits of the smaller order
Bb(bx, bc, bg) == bg - 1 - bx - bc
Usable(bx, bc, bg, lo, hi) ==
    /\ Bb(bx, bc, bg) >= 1
    /\ bc >= 8 /\ bc <= 256 /\ bc % 8 = 0
    /\ lo <= hi /\ BLt(BOf(hi), BPow2(bx))
WindowLo(bx, bc) == BPow2(bx + bc)
WindowHi(bx, bc, bb) == BPow2(bx + bc + bb)
InWindow(z, bx, bc, bb) == BLe(WindowLo(bx, bc), z) /\ BLt(z, WindowHi(bx, bc, bb))

\* --- statement -------------------------------------------------------------
Enc(m, r) == [U |-> FP!Term(ModP(r), "G"), V |-> FP!FAdd(FP!Term(ModP(m), "G"), FP!Term(ModP(r), "PK"))]
Ped(m, r) == FQ!FAdd(FQ!Term(ModQ(m), "G"), FQ!Term(ModQ(r), "H"))

\* one secret in all three places
SameSecret(Y, Xp, Xq1, Xq2) ==
    /\ FP!Within(Y, {"G"})
    /\ FP!Within(Xp, {"G", "PK"}) /\ FP!Coef(Xp, "PK") = FP!Coef(Y, "G")
    /\ FQ!Within(Xq1, {"G", "H"}) /\ FQ!Within(Xq2, {"G", "H"})
    /\ FP!Coef(Xp, "G") = FQ!Coef(Xq1, "G")        \* as integers
    /\ FP!Coef(Xp, "G") = FQ!Coef(Xq2, "G")

\* --- relations -------------------------------------------------------------
\* p: W, Kp, Kq1, Kq2, c, z, sp, sq1, sq2; st: Y, Xp, Xq1, Xq2
RelY(st, p) == FP!FSub(FP!Term(ModP(p.sp), "G"), FP!FAdd(FP!FScale(ModP(p.c), st.Y), p.W))
RelP(st, p) == FP!FSub(Enc(p.z, p.sp).V, FP!FAdd(FP!FScale(ModP(p.c), st.Xp), p.Kp))
RelQ1(st, p) == FQ!FSub(Ped(p.z, p.sq1), FQ!FAdd(FQ!FScale(ModQ(p.c), st.Xq1), p.Kq1))
RelQ2(st, p) == FQ!FSub(Ped(p.z, p.sq2), FQ!FAdd(FQ!FScale(ModQ(p.c), st.Xq2), p.Kq2))
Relations(st, p) == FP!IsNil(RelY(st, p)) /\ FP!IsNil(RelP(st, p)) /\ FQ!IsNil(RelQ1(st, p)) /\ FQ!IsNil(RelQ2(st, p))

\* derived: p.c is the challenge derived from the transcript
Accepts(st, p, derived, bx, bc, bb) ==
    /\ InWindow(p.z, bx, bc, bb)
    /\ derived
    /\ Relations(st, p)
=============================================================================
