--------------------------- MODULE ConstraintMC ---------------------------
(* The constraint the range-proof relations enforce holds for all           *)
(* challenges exactly when the vectors are the bits of the values: checked  *)
(* for every vector and value over fields larger than its degree.           *)
EXTENDS RangeProof, Integers
CONSTANTS Pr, Bits, Vals
AddS(a, b) == (a + b) % Pr
MulS(a, b) == (a * b) % Pr
NegS(a) == (Pr - a) % Pr
InvS(a) == CHOOSE i \in 0..(Pr - 1) : (i * a) % Pr = 1
OfS(i) == i % Pr
Fld == 0..(Pr - 1)
VARIABLES aL, aR, v
Init == aL \in [1..(Bits * Vals) -> Fld] /\ aR \in [1..(Bits * Vals) -> Fld] /\ v \in [1..Vals -> Fld]
Next == UNCHANGED <<aL, aR, v>>
Spec == Init /\ [][Next]_<<aL, aR, v>>
Bits_iff == (\A y, z \in Fld \ {0} : ConstraintHolds(aL, aR, v, y, z, Bits, Vals)) <=> BitsOf(aL, aR, v, Bits, Vals)
=============================================================================
