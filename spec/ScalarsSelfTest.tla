-------------------------- MODULE ScalarsSelfTest --------------------------
(* The Java evaluation of BigScalars agrees with TLC's integers on every    *)
(* small argument, and with the laws of arithmetic on a few large ones.     *)
EXTENDS BigScalars, TLC
S == (-12)..12
M == 1..11
RECURSIVE P(_, _)
P(a, k) == IF k = 0 THEN 1 ELSE a * P(a, k - 1)
ASSUME \A a, b \in S : /\ BAdd(BOf(a), BOf(b)) = BOf(a + b)
                       /\ BSub(BOf(a), BOf(b)) = BOf(a - b)
                       /\ BMul(BOf(a), BOf(b)) = BOf(a * b)
                       /\ BLt(BOf(a), BOf(b)) = (a < b) /\ BLe(BOf(a), BOf(b)) = (a <= b)
                       /\ (a = b) <=> (BOf(a) = BOf(b))
ASSUME \A a \in S, m \in M : BMod(BOf(a), BOf(m)) = BOf(a % m) /\ BDiv(BOf(a), BOf(m)) = BOf(a \div m)
ASSUME \A p \in {2, 3, 5, 7, 11}, a \in S : a % p # 0 => BMod(BMul(BInv(BOf(a), BOf(p)), BOf(a)), BOf(p)) = "1"
ASSUME \A a \in 0..6, e \in 0..6, m \in M : BExp(BOf(a), BOf(e), BOf(m)) = BOf(P(a, e) % m)
ASSUME \A n \in 0..30 : BPow2(n) = BOf(P(2, n))
ASSUME \A a \in S : BToInt(BOf(a)) = a
ASSUME \A a \in (-70)..70, k \in 0..8 : BBit(BOf(a), k) = (a \div P(2, k)) % 2
ASSUME \A a \in 0..70 : LET k == BBitLen(BOf(a)) IN P(2, k) > a /\ (k = 0 \/ P(2, k - 1) <= a)
Big == {BPow2(64), BSub(BPow2(255), "19"), BMul(BPow2(256), "-3"), "123456789012345678901234567890"}
ASSUME \A a, b, c \in Big : /\ BMul(a, BAdd(b, c)) = BAdd(BMul(a, b), BMul(a, c))
                            /\ BSub(BAdd(a, b), b) = a
                            /\ BAdd(BMul(BDiv(a, "97"), "97"), BMod(a, "97")) = a
ASSUME BExp("3", BSub(BPow2(255), "20"), BSub(BPow2(255), "19")) = "1"
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
