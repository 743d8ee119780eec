----------------------------- MODULE Arithmetic -----------------------------
(* What the vector and scalar helpers compute, over exact integers.         *)
EXTENDS BigScalars, Sequences, TLC

VMap(Op(_, _), a, b, m) == [i \in 1..Len(a) |-> BMod(Op(a[i], b[i]), m)]
VecAdd(a, b, m) == VMap(BAdd, a, b, m)
VecSub(a, b, m) == VMap(BSub, a, b, m)
VecMul(a, b, m) == VMap(BMul, a, b, m)
VecAddConst(a, k, m) == [i \in 1..Len(a) |-> BMod(BAdd(a[i], k), m)]
VecScale(a, k, m) == [i \in 1..Len(a) |-> BMod(BMul(a[i], k), m)]
RECURSIVE SumN(_, _, _)
SumN(a, b, k) == IF k = 0 THEN "0" ELSE BAdd(SumN(a, b, k - 1), BMul(a[k], b[k]))
InnerN(a, b, m) == BMod(SumN(a, b, Len(a)), m)
CopyN(x, n) == [i \in 1..n |-> x]
RECURSIVE PowersN(_, _, _)
PowersN(x, n, m) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<"1">>
    ELSE LET p == TLCEval(PowersN(x, n - 1, m)) IN Append(p, BMod(BMul(p[n - 1], x), m))
RECURSIVE DigitsN(_, _, _)
\* the l lowest digits of x in base u
DigitsN(x, u, l) == IF l = 0 THEN <<>> ELSE <<BMod(x, u)>> \o DigitsN(BDiv(x, u), u, l - 1)
IsPower2(x) == \E k \in 0..63 : BPow2(k) = x

(* linear forms over named generators: reduced, without zero coefficients *)
Get(f, l) == IF l \in DOMAIN f THEN f[l] ELSE "0"
Lin(f, m) == LET g == [l \in DOMAIN f |-> BMod(f[l], m)] IN [l \in {x \in DOMAIN g : g[x] # "0"} |-> g[l]]
LPlus(f, g, m) == Lin([l \in DOMAIN f \cup DOMAIN g |-> BAdd(Get(f, l), Get(g, l))], m)
LTimes(k, f, m) == Lin([l \in DOMAIN f |-> BMul(k, f[l])], m)
Nothing == [l \in {} |-> "0"]
RECURSIVE LExp(_, _, _, _)
LExp(gs, es, k, m) == IF k = 0 THEN Nothing ELSE LPlus(TLCEval(LExp(gs, es, k - 1, m)), LTimes(es[k], gs[k], m), m)
Ped(x, r, h, m) == LPlus(Lin("G" :> x, m), LTimes(r, h, m), m)
=============================================================================
