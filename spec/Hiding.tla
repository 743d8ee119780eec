------------------------------- MODULE Hiding -------------------------------
(* Blinding values over the life of a system. Every proof and ciphertext    *)
(* draws its own; none is zero, none occurs twice, differences between two  *)
(* of them do not recur, and each kind covers its whole range whatever the  *)
(* secret. HidingMC says why these make the published parts independent of  *)
(* the secret.                                                              *)
EXTENDS BigScalars, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

\* part of the range [0, m) in which v lies
Parts == 0..7
Octile(v, m) == BToInt(BDiv(BMul(v, "8"), m))
Residue(v) == BToInt(BMod(v, "8"))
Proper(v, m) == v # "0" /\ BLe("0", v) /\ BLt(v, m)

\* Index of the first of a sequence of sequences that has an entry twice or
\* an entry of an earlier one; 0 if there is none
Total(q, k) == FoldLeft(LAMBDA n, x : n + Len(x), 0, SubSeq(q, 1, k))
Distinct(q, k) == Cardinality(UNION {{q[n][j] : j \in 1..Len(q[n])} : n \in 1..k}) = Total(q, k)
RECURSIVE Search(_, _, _)
\* the first a have distinct entries, the first b do not
Search(q, a, b) == IF b = a + 1 THEN b
                   ELSE LET m == (a + b) \div 2 IN IF Distinct(q, m) THEN Search(q, m, b) ELSE Search(q, a, m)
FirstRepeat(q) == IF Distinct(q, Len(q)) THEN 0 ELSE Search(q, 0, Len(q))

\* Values determined by the pieces foot[j] of a source of randomness, value j
\* taking need[j] pieces: any one, two or three of them take together as many
\* pieces as their ranges add up to. (All may be expanded from one seed.)
Independent(foot, need) ==
    LET D == DOMAIN foot
        Enough(S) == Cardinality(UNION {foot[j] : j \in S}) >= FoldSet(LAMBDA j, n : n + need[j], 0, S)
    IN \/ \A j \in D : foot[j] = foot[1] /\ Cardinality(foot[1]) >= 2
       \/ \A a, b \in D : a <= b => Enough({a, b})
          /\ (Cardinality(D) <= 24 => \A c \in D : b <= c => Enough({a, b, c}))

EmptyHist == [x \in {} |-> {}]
Mark(h, key, part) == IF key \in DOMAIN h THEN [h EXCEPT ![key] = @ \cup {part}] ELSE h @@ (key :> {part})
=============================================================================
