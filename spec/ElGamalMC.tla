----------------------------- MODULE ElGamalMC -----------------------------
(* Tallying as a machine over a small order: any ciphertexts are combined   *)
(* in any order; what decrypts is the sum of what was encrypted.            *)
EXTENDS ElGamal, Integers
CONSTANTS Msgs, Keys, MaxVotes
VARIABLES key, box, sum, n
Init == key \in Keys /\ box = [u |-> "0", v |-> "0"] /\ sum = 0 /\ n = 0
Vote == /\ n < MaxVotes
        /\ \E m \in Msgs, r \in 1..(BToInt(Order) - 1) :
             /\ box' = Combine(box, Encrypt(BOf(m), BOf(r), key))
             /\ sum' = sum + m
        /\ n' = n + 1 /\ UNCHANGED key
Next == Vote
Spec == Init /\ [][Next]_<<key, box, sum, n>>
Tally == Decrypt(box, key) = Md(BOf(sum))
\* every ciphertext occurs for every message: nothing is learnt without the key
Masked == \A m \in Msgs : {Encrypt(BOf(m), BOf(r), "1").v : r \in 0..(BToInt(Order) - 1)} = {BOf(x) : x \in 0..(BToInt(Order) - 1)}
=============================================================================
