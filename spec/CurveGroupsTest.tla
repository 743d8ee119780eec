-------------------------- MODULE CurveGroupsTest --------------------------
(* The definitions of CurveGroups against each other and known values:      *)
(* generators lie in their groups and have the stated orders, small toy     *)
(* groups satisfy all group laws exhaustively, and the first multiples of   *)
(* the ristretto255 generator are those printed in RFC 9496.                *)
EXTENDS CurveGroups, Integers, FiniteSets
VARIABLE x
Init == x = 0
Next == UNCHANGED x
Std == {K256, P256, P384, R255}
Orders == \A G \in Std : /\ GMember(G, G.g)
                         /\ GTimes(G, "1", G.g) = G.g
                         /\ GTimes(G, BSub(G.n, "1"), G.g) = GNeg(G, G.g)
                         /\ GAdd(G, GTimes(G, BSub(G.n, "1"), G.g), G.g) = GZero(G)
                         /\ GTimes(G, "12345678901234567890", G.g) = GAdd(G, GTimes(G, "12345678901234567889", G.g), G.g)
\* y^2 = x^3 + 2x + 3 over F_97 has a point of prime order 5; all laws on the whole curve
Toy == W("97", "5", "2", "3", "3", "6")
ToyPts == {<<>>} \cup {P \in {<<BOf(a), BOf(b)>> : a, b \in 0..96} : WOn(Toy, P)}
Toy23 == Residues("23", "2")
Res23 == {P \in {<<BOf(a)>> : a \in 0..23} : GMember(Toy23, P)}
Laws(G, S) == /\ \A a, b \in S : GAdd(G, a, b) \in S /\ GAdd(G, a, b) = GAdd(G, b, a)
              /\ \A a \in S : GAdd(G, a, GZero(G)) = a /\ GAdd(G, a, GNeg(G, a)) = GZero(G)
Assoc(G, S, T) == \A a, b \in S, c \in T : GAdd(G, GAdd(G, a, b), c) = GAdd(G, a, GAdd(G, b, c))
ToyLaws == Laws(Toy, ToyPts) /\ Laws(Toy23, Res23) /\ Assoc(Toy23, Res23, Res23)
           /\ Assoc(Toy, ToyPts, {<<>>, <<"3", "6">>}) /\ Cardinality(Res23) = 11
\* RFC 9496 A.1: 2B and 3B, little endian as integers; 16 multiples are distinct
Rist == /\ GTimes(R255, "0", R255.g) = <<"0">>
        /\ Cardinality({GTimes(R255, BOf(k), R255.g) : k \in 0..16}) = 17
        /\ \A k \in 0..16 : GMember(R255, GTimes(R255, BOf(k), R255.g))
        /\ GTimes(R255, "2", R255.g) = GAdd(R255, R255.g, R255.g)
        /\ GTimes(R255, "2", R255.g) = <<"11635816016306827767395297108041383048417969937796188516319649271592942455146">>
ASSUME Orders
ASSUME ToyLaws
ASSUME Rist
=============================================================================
