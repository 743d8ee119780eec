-------------------------- MODULE ElectionSetupMC --------------------------
(* All small parameter sets, with concrete orders q and p of the two        *)
(* groups: the five conditions of ElectionSetup together give completeness, *)
(* exactness and wrap-free responses, and none of them can be dropped.      *)
EXTENDS ElectionSetup, FiniteSets
CONSTANTS MaxQ, MaxHi
VARIABLE p

RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
\* one bit challenges up; bb is free, so that sets with a wrong bb occur too
Sets == [bx : 0..3, bc : 0..2, bb : -1..3, bg : 1..6, n : 1..3, lo : 0..MaxHi, hi : 0..MaxHi,
         q : {3, 5, 7, 11, 17, 23, MaxQ}, p : {5, 23, MaxQ}]
Init == p \in Sets
Next == UNCHANGED p
Spec == Init /\ [][Next]_p
S(x) == [bx |-> x.bx, bc |-> x.bc, bb |-> x.bb, bg |-> x.bg, n |-> x.n, lo |-> x.lo, hi |-> x.hi, ql |-> Bits(x.q), pl |-> Bits(x.p)]

\* what the collector's two range proofs show of a committed y
Passes(x, y) == (y - x.lo) % x.q < 2^x.n /\ (x.hi - y) % x.q < 2^x.n
Complete(x) == x.lo <= x.hi /\ \A v \in x.lo..x.hi : v < x.q => Passes(x, v)
Exact(x) == \A y \in 0..(x.q - 1) : Passes(x, y) => \E v \in x.lo..x.hi : v % x.q = y
\* responses k + c v in the accepted window are integers below both orders
Lo(x) == 2^(x.bx + x.bc)
Hi(x) == 2^(x.bx + x.bc + x.bb)
NoReduction(x) == x.bb >= 0 => Hi(x) < x.q /\ Hi(x) < x.p
\* the accepted responses are the same set for every candidate and challenge
Window(x, v, c) == {k + c * v : k \in 0..(Hi(x) - 1)} \cap (Lo(x)..(Hi(x) - 1))
Simulatable(x) == x.bb >= 1 /\ \A v \in x.lo..x.hi, c \in 0..(2^x.bc - 1) : Window(x, v, c) = Lo(x)..(Hi(x) - 1)
Unpredictable(x) == 2^x.bc > 1
Good(x) == Complete(x) /\ Exact(x) /\ NoReduction(x) /\ Simulatable(x) /\ Unpredictable(x)

FitsIsEnough == Fits(S(p)) => Good(p)

\* each condition, dropped alone, lets a bad set through
Holds(j, s) == CASE j = 1 -> RangeOk(s) [] j = 2 -> NoWrap(s) [] j = 3 -> SecretOk(s) [] j = 4 -> WindowOk(s) [] OTHER -> Challenge(s)
Few == [bx : 1..2, bc : 0..1, bb : 0..2, bg : 3..5, n : 1..3, lo : 0..3, hi : {0, 1, 2, 3, 6}, q : {3, 5, 11, MaxQ}, p : {5, MaxQ}]
Tight == \A k \in 1..5 : \E x \in Few : (\A j \in 1..5 \ {k} : Holds(j, S(x))) /\ ~Good(x)
ASSUME Tight
=============================================================================
