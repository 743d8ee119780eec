---------------------------- MODULE BigScalars ----------------------------
(* Integers of any size. TLC's own integers have 32 bits, so a number is    *)
(* written as its decimal numeral (a string). Num and Numeral relate the    *)
(* two; they are only the meaning of the operators, which TLC evaluates     *)
(* with java/BigScalars.java.  ScalarsSelfTest checks that implementation   *)
(* against TLC's integers on every small argument.                          *)
EXTENDS Integers

LOCAL Numeral(i) == CHOOSE s \in STRING : TRUE   \* the decimal numeral of i
LOCAL Num(s) == CHOOSE i \in Int : Numeral(i) = s

BOf(i) == Numeral(i)
BAdd(a, b) == Numeral(Num(a) + Num(b))
BSub(a, b) == Numeral(Num(a) - Num(b))
BMul(a, b) == Numeral(Num(a) * Num(b))
BMod(a, m) == Numeral(Num(a) % Num(m))            \* in 0..m-1
BDiv(a, m) == Numeral(Num(a) \div Num(m))         \* rounds down
BInv(a, m) == Numeral(CHOOSE i \in 0..(Num(m) - 1) : (i * Num(a)) % Num(m) = 1)
BPow2(n) == Numeral(2^n)
BExp(a, e, m) == Numeral((Num(a)^Num(e)) % Num(m))
BLt(a, b) == Num(a) < Num(b)
BLe(a, b) == Num(a) <= Num(b)
BBitLen(a) == CHOOSE k \in Nat : 2^k > Num(a) /\ (k = 0 \/ 2^(k-1) <= Num(a))
BToInt(a) == Num(a)
BBit(a, k) == (Num(a) \div 2^k) % 2
=============================================================================
