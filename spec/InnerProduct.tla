--------------------------- MODULE InnerProduct ---------------------------
(* The inner-product argument (Bulletproofs, Protocols 1 and 2).            *)
(* Statement: P = g^a h^b and c = <a,b>, with generators g, h (forms) and   *)
(* an independent u.                                                        *)
EXTENDS Forms

Half(v, k) == LET m == Len(v) \div 2 IN
    IF k = 1 THEN SubSeq(v, 1, m) ELSE SubSeq(v, m + 1, Len(v))

VScale(s, v) == [i \in 1..Len(v) |-> Mul(s, v[i])]
VAdd(v, w) == [i \in 1..Len(v) |-> Add(v[i], w[i])]

\* the two cross terms a prover sends in a round, ux = u^(x_u)
RoundL(a, b, g, h, ux) ==
    FAdd(FAdd(FExp(Half(g, 2), Half(a, 1)), FExp(Half(h, 1), Half(b, 2))),
         FScale(Inner(Half(a, 1), Half(b, 2)), ux))
RoundR(a, b, g, h, ux) ==
    FAdd(FAdd(FExp(Half(g, 1), Half(a, 2)), FExp(Half(h, 2), Half(b, 1))),
         FScale(Inner(Half(a, 2), Half(b, 1)), ux))

FoldA(a, x) == TLCEval(VAdd(VScale(x, Half(a, 1)), VScale(Inv(x), Half(a, 2))))
FoldB(b, x) == TLCEval(VAdd(VScale(Inv(x), Half(b, 1)), VScale(x, Half(b, 2))))
FoldG(g, x) == TLCEval([i \in 1..(Len(g) \div 2) |-> FAdd(FScale(Inv(x), Half(g, 1)[i]), FScale(x, Half(g, 2)[i]))])
FoldH(h, x) == TLCEval([i \in 1..(Len(h) \div 2) |-> FAdd(FScale(x, Half(h, 1)[i]), FScale(Inv(x), Half(h, 2)[i]))])
FoldP(P, L, R, x) == FAdd(FAdd(FScale(Mul(x, x), L), P), FScale(Inv(Mul(x, x)), R))

\* Verification as the protocol states it: fold the generators and compare.
RECURSIVE FoldAll(_, _, _)
FoldAll(gs, xs, op) ==
    IF xs = <<>> THEN gs
    ELSE FoldAll(IF op = "g" THEN FoldG(gs, Head(xs)) ELSE FoldH(gs, Head(xs)), Tail(xs), op)

\* Closed form: exponent of generator j (1-based) after all rounds.
\* Round i splits on bit (k-i) of j-1: first half gets x^-1 for g, x for h.
RECURSIVE TwoTo(_)
TwoTo(k) == IF k = 0 THEN 1 ELSE 2 * TwoTo(k - 1)
HighBit(j, i, k) == ((j - 1) \div TwoTo(k - i)) % 2
RECURSIVE ProdS(_, _, _)
ProdS(j, xs, i) == IF i = 0 THEN One
    ELSE Mul(ProdS(j, xs, i - 1), IF HighBit(j, i, Len(xs)) = 1 THEN xs[i] ELSE Inv(xs[i]))
SExp(j, xs) == ProdS(j, xs, Len(xs))

\* The linear form that must vanish: P' - g'^a h'^b u^(x ab)
\*   = P + x_u (c - ab) u + sum x_i^2 L_i + x_i^-2 R_i - a s.g - b s^-1.h
Relation(P, c, xu, Ls, Rs, xs, a, b, g, h, U) ==
    LET S == TLCEval([j \in 1..Len(g) |-> SExp(j, xs)])
        lr == [i \in 1..Len(xs) |-> FAdd(FScale(Mul(xs[i], xs[i]), Ls[i]), FScale(Inv(Mul(xs[i], xs[i])), Rs[i]))]
        gs == [j \in 1..Len(g) |-> FScale(Mul(a, S[j]), g[j])]
        hs == [j \in 1..Len(h) |-> FScale(Mul(b, Inv(S[j])), h[j])]
    IN FSub(FSub(FAdd(FAdd(P, FScale(Mul(xu, Sub(c, Mul(a, b))), U)), FSum(lr)), FSum(gs)), FSum(hs))

RelationByFolding(P, c, xu, Ls, Rs, xs, a, b, g, h, U) ==
    LET gf == FoldAll(g, xs, "g")[1]
        hf == FoldAll(h, xs, "h")[1]
        ux == FScale(xu, U)
        lr == [i \in 1..Len(xs) |-> FAdd(FScale(Mul(xs[i], xs[i]), Ls[i]), FScale(Inv(Mul(xs[i], xs[i])), Rs[i]))]
        Pp == FAdd(FAdd(P, FScale(c, ux)), FSum(lr))
    IN FSub(Pp, FAdd(FAdd(FScale(a, gf), FScale(b, hf)), FScale(Mul(a, b), ux)))

\* Number of rounds for vectors of length n = 2^k.
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
IsPow2(n) == \E k \in 0..20 : TwoTo(k) = n
=============================================================================
