----------------------------- MODULE Election -----------------------------
(* The election: voters publish ballots made of an ElGamal ciphertext, a    *)
(* range proof that choice - lo is small, one that hi - choice is small,    *)
(* and an equality proof tying the three together. The collector accepts or *)
(* rejects. An adversary assembles ballots from parts it makes itself, for  *)
(* whatever numbers it likes, and from parts of ballots it has seen.        *)
(*                                                                          *)
(* Here the proofs are ideal: a range proof exists exactly for a committed  *)
(* number in [0, 2^n), an equality proof exists exactly for a statement     *)
(* with one number in all three places. RangeProof, InnerProduct and        *)
(* EqProof say what makes them so. Numbers are residues modulo the order Q  *)
(* of the commitment group, small in the model.                             *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Q,          \* order of the commitment group
          PF,         \* order of the ElGamal group
          N,          \* bits of a range proof
          MaxBallots  \* honest ballots in a history

TwoN == 2^N
Commit(v, r) == [v |-> v % Q, r |-> r]
Cipher(m, r) == [m |-> m % PF, r |-> r]

\* Proofs are objects that carry what they are bound to.
RangeProofOf(com) == [kind |-> "range", com |-> com]
RangeOK(p) == p.com.v < TwoN
EqProofOf(ct, x1, x2) == [kind |-> "eq", ct |-> ct, x1 |-> x1, x2 |-> x2]
\* The secret of a statement is one integer below 2^bx, the same in both groups
EqTrue(p, Bx) == p.x1.v = p.x2.v /\ p.ct.m = p.x1.v /\ p.x1.v < 2^Bx

ShiftUp(com, lo) == Commit(com.v + lo, com.r)
ShiftDown(com, hi) == Commit(hi - com.v, com.r)

\* --- the collector ---------------------------------------------------------
Accept(b, lo, hi, Bx) ==
    /\ RangeOK(b.lower)
    /\ RangeOK(b.upper)
    /\ EqTrue(b.eq, Bx)
    /\ b.eq.ct = b.ct
    /\ b.eq.x1 = ShiftUp(b.lower.com, lo)
    /\ b.eq.x2 = ShiftDown(b.upper.com, hi)

\* --- honest voter ----------------------------------------------------------
Ballot(choice, lo, hi, r, r1, r2) ==
    LET ct == Cipher(choice, r)
        c1 == Commit(choice - lo, r1)
        c2 == Commit(hi - choice, r2)
    IN [ct |-> ct, lower |-> RangeProofOf(c1), upper |-> RangeProofOf(c2),
        eq |-> EqProofOf(ct, ShiftUp(c1, lo), ShiftDown(c2, hi))]

\* --- what the collector guarantees -----------------------------------------
Valid(b, lo, hi) == /\ b.ct.m >= lo /\ b.ct.m <= hi
                    /\ b.lower.com.v = b.ct.m - lo
                    /\ b.upper.com.v = hi - b.ct.m

------------------------------------------------------------------------------
VARIABLES lo, hi, bx, issued, submitted
evars == <<lo, hi, bx, issued, submitted>>

None == [none |-> TRUE]
EInit == /\ bx \in 1..(N + 1)
         /\ lo \in 0..(2^bx - 1) /\ hi \in lo..(2^bx - 1)
         /\ hi - lo < TwoN          \* the range fits the proof size
         /\ issued = <<>> /\ submitted = None

Cast == /\ Len(issued) < MaxBallots
        /\ \E choice \in lo..hi : LET k == Len(issued) + 1 IN
              /\ issued' = Append(issued, Ballot(choice, lo, hi, k, k, k))
              /\ submitted' = issued'[k]
        /\ UNCHANGED <<lo, hi, bx>>

\* replay and recombination of published parts, in either role
Splice == /\ Len(issued) = MaxBallots /\ submitted = issued[MaxBallots]
          /\ \E a, b, c, d \in 1..MaxBallots : \E rb, rc \in {"lower", "upper"} :
                submitted' = [ct |-> issued[a].ct, lower |-> issued[b][rb], upper |-> issued[c][rc], eq |-> issued[d].eq]
          /\ UNCHANGED <<lo, hi, bx, issued>>

\* parts of the adversary's own making; 0 is its own randomness
Forge == /\ Len(issued) = 0 /\ submitted = None
         /\ \E m \in 0..(PF - 1), v1, v2 \in 0..(Q - 1), e1, e2 \in 0..(Q - 1) :
               LET ct == Cipher(m, 0) IN
               submitted' = [ct |-> ct, lower |-> RangeProofOf(Commit(v1, 0)), upper |-> RangeProofOf(Commit(v2, 0)),
                             eq |-> EqProofOf(ct, Commit(e1, 0), Commit(e2, 0))]
         /\ UNCHANGED <<lo, hi, bx, issued>>

ForgeSpec == EInit /\ [][Cast \/ Forge]_evars
SpliceSpec == EInit /\ [][Cast \/ Splice]_evars

Complete == \A k \in 1..Len(issued) : Accept(issued[k], lo, hi, bx)
SoundInv == submitted # None => (Accept(submitted, lo, hi, bx) => Valid(submitted, lo, hi))
SpliceInv == (submitted # None /\ Len(issued) = MaxBallots /\ Accept(submitted, lo, hi, bx))
                => \E k \in 1..MaxBallots : submitted = issued[k]
=============================================================================
