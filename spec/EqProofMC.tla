----------------------------- MODULE EqProofMC -----------------------------
(* The equality proof as a protocol, model checked over small orders: the   *)
(* prover draws masks, the challenge arrives, and an attempt whose response *)
(* leaves the window is thrown away and started anew. Statement and secret  *)
(* are arbitrary: the three places may hold different numbers.              *)
EXTENDS EqProof, Integers
CONSTANTS bx, bc, bb, Masks

VARIABLES st, k, t, c, ph, z
vars == <<st, k, t, c, ph, z>>
Secrets == 0..(2^bx - 1)
Nonces == 0..(2^(bx + bc + bb) - 1)
\* m: the number the prover works with; e, q1, q2: the numbers in the three places
Init == /\ st \in [m : Secrets, e : Secrets, q1 : Secrets, q2 : Secrets]
        /\ k = 0 /\ t = 0 /\ c = 0 /\ z = 0 /\ ph = "draw"
Draw == ph = "draw" /\ k' \in Nonces /\ t' \in Masks /\ ph' = "sent" /\ UNCHANGED <<st, c, z>>
Ask == ph = "sent" /\ c' \in 0..(2^bc - 1) /\ ph' = "asked" /\ UNCHANGED <<st, k, t, z>>
Respond == /\ ph = "asked"
           /\ LET r == k + c * st.m IN
                IF r >= 2^(bx + bc) /\ r < 2^(bx + bc + bb)
                THEN z' = r /\ ph' = "published" /\ UNCHANGED <<st, k, t, c>>
                ELSE ph' = "draw" /\ k' = 0 /\ t' = 0 /\ c' = 0 /\ UNCHANGED <<st, z>>
Next == Draw \/ Ask \/ Respond
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* randomness of the statement, fixed; all masks are the same t (they live in different places)
R == 3
Statement == LET ct == Enc(BOf(st.e), BOf(R))
             IN [Y |-> ct.U, Xp |-> ct.V, Xq1 |-> Ped(BOf(st.q1), BOf(R + 1)), Xq2 |-> Ped(BOf(st.q2), BOf(R + 2))]
Resp(r, ord) == BOf((t + c * r) % ord)
Proof == LET kp == Enc(BOf(k), BOf(t)) IN
    [W |-> kp.U, Kp |-> kp.V, Kq1 |-> Ped(BOf(k), BOf(t)), Kq2 |-> Ped(BOf(k), BOf(t)), c |-> BOf(c), z |-> BOf(z),
     sp |-> Resp(R, BToInt(OrdP)), sq1 |-> Resp(R + 1, BToInt(OrdQ)), sq2 |-> Resp(R + 2, BToInt(OrdQ))]
Out == ph = "published"
OK == Accepts(Statement, Proof, TRUE, bx, bc, bb)
Same == SameSecret(Statement.Y, Statement.Xp, Statement.Xq1, Statement.Xq2)

\* responses stay in the window
Window == Out => InWindow(BOf(z), bx, bc, bb)
\* one secret everywhere, the one the prover works with: accepted
Complete == Out /\ Same /\ st.m = st.e => OK
\* a prover that follows the algorithm is accepted for another statement only
\* if the challenge kills the difference
Sound == Out /\ OK => \A x \in {st.e, st.q1, st.q2} : c = 0 \/ x = st.m
\* in the window every response has exactly one mask per secret and challenge:
\* the published response says nothing about the secret
OneMask == \A m \in Secrets, ch \in 0..(2^bc - 1) :
              \A r \in (2^(bx + bc))..(2^(bx + bc + bb) - 1) : Cardinality({q \in Nonces : q + ch * m = r}) = 1
\* a commitment altered, or a response shifted, is not accepted
Needed == Out /\ OK => /\ ~Accepts([Statement EXCEPT !.Y = FP!FAdd(@, FP!Term("1", "G"))], Proof, TRUE, bx, bc, bb) \/ c = 0
                       /\ ~Accepts(Statement, [Proof EXCEPT !.z = BAdd(@, "1")], TRUE, bx, bc, bb)
                       /\ ~Accepts(Statement, [Proof EXCEPT !.sp = BAdd(@, "1")], TRUE, bx, bc, bb)
                       /\ ~Accepts(Statement, [Proof EXCEPT !.sq1 = BAdd(@, "1")], TRUE, bx, bc, bb)
                       /\ ~Accepts(Statement, [Proof EXCEPT !.sq2 = BAdd(@, "1")], TRUE, bx, bc, bb)
                       /\ ~Accepts(Statement, Proof, FALSE, bx, bc, bb)
=============================================================================
