---------------------------- MODULE ElectionGen ----------------------------
(* Enumerates the adversary's ballots for replay on the implementation:     *)
(* every recombination of the parts of K published ballots (both components *)
(* of the ciphertext separately, each range proof in either role), and      *)
(* every choice of claimed numbers for parts the adversary makes itself.    *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, SequencesExt, TLC

K == IF IOEnv.TIER = "thorough" THEN 3 ELSE 2
Ids == 1..K
Roles == {"lower", "upper"}
Splices == {[u |-> u, v |-> v, lo |-> lo, lr |-> lr, up |-> up, ur |-> ur, eq |-> eq] :
               u \in Ids, v \in Ids, lo \in Ids, lr \in Roles, up \in Ids, ur \in Roles, eq \in Ids}

\* numbers relative to the range: names resolved by the harness
Numbers == IF IOEnv.TIER = "thorough" THEN {"lo", "hi", "lo-1", "hi+1", "lo+1", "zero", "max+1", "neg", "top"}
           ELSE {"lo", "hi", "lo-1", "hi+1", "top"}
Claims == {[ct |-> a, lower |-> b, upper |-> c, eq |-> d] : a \in Numbers, b \in Numbers, c \in Numbers, d \in Numbers}
\* those in which all parts agree are kept whatever the number; of the others
\* at least one part is about a number of the range

\* Ballots made for parameters that deviate from the election's in a few
\* fields at once, for every number the deviating range admits.
Common == {"lo", "hi", "key", "h", "challenge", "window"}
Fields == Common \cup {"lo+", "hi-", "abort+", "abort-", "secret+", "secret-",
                      "key=0", "key=G", "h=0", "h=G"}   \* remarkable keys and generators
Lo(D) == CASE "lo" \in D -> 36 [] "lo+" \in D -> 43 [] OTHER -> 40
Hi(D) == CASE "hi" \in D -> 53 [] "hi-" \in D -> 46 [] OTHER -> 49
Clash(D) == \E C \in {{"lo", "lo+"}, {"hi", "hi-"}, {"key", "key=0", "key=G"}, {"h", "h=0", "h=G"}} : Cardinality(C \cap D) > 1
Many == IOEnv.TIER = "thorough"
Chosen == {S \in SUBSET Fields : ~Clash(S) /\ Cardinality(S) <= IF Many THEN 3 ELSE 2}
          \cup {S \in SUBSET Common : Cardinality(S) <= IF Many THEN 6 ELSE 3}
Deviations == {[dev |-> SetToSeq(D), lo |-> Lo(D), hi |-> Hi(D), num |-> k] :
                  D \in Chosen, k \in {36, 38, 39, 40, 43, 45, 49, 50, 51, 53}}
Fits(d) == d.num - d.lo \in 0..15 /\ d.hi - d.num \in 0..15
Out == CASE IOEnv.KIND = "splice" -> SetToSeq(Splices)
         [] IOEnv.KIND = "params" -> SetToSeq({d \in Deviations : Fits(d)})
         [] OTHER -> SetToSeq(Claims)
ASSUME ndJsonSerialize(IOEnv.GEN, Out)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
