------------------------------ MODULE ElGamal ------------------------------
(* Lifted ElGamal in a group of prime order: elements by their logarithms   *)
(* to the base g, the public key by the private key.                        *)
EXTENDS BigScalars, Sequences, TLC
CONSTANT Order
Md(x) == BMod(x, Order)
Encrypt(m, r, key) == [u |-> Md(r), v |-> Md(BAdd(m, BMul(r, key)))]
Combine(a, b) == [u |-> Md(BAdd(a.u, b.u)), v |-> Md(BAdd(a.v, b.v))]
Decrypt(c, key) == Md(BSub(c.v, BMul(c.u, key)))
Randomness(r) == BLe("1", r) /\ BLt(r, Order)
=============================================================================
