------------------------- MODULE InnerProductTrace -------------------------
(* Validates recorded inner-product arguments against InnerProduct.         *)
EXTENDS InnerProduct, BigScalars, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Q == IOEnv.ORDER
FAddQ(a, b) == BMod(BAdd(a, b), Q)
FMulQ(a, b) == BMod(BMul(a, b), Q)
FNegQ(a) == BMod(BSub("0", a), Q)
FInvQ(a) == BInv(a, Q)
FOfQ(k) == BMod(BOf(k), Q)
Red(v) == TLCEval([k \in 1..Len(v) |-> BMod(v[k], Q)])

VARIABLES i
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Init == i = 0

Gs(n) == TLCEval([k \in 1..n |-> GenG(k)])
Hs(n) == TLCEval([k \in 1..n |-> GenH(k)])
U == Term(One, "U")
RoundsOK(n, L, R) == IsPow2(n) /\ Len(L) = Log2(n) /\ Len(R) = Log2(n)

\* the statement "c is the inner product of the vectors in P"
TrueStatement(P, c, n) ==
    /\ Within(P, {Name("g", k) : k \in 0..(n - 1)} \cup {Name("h", k) : k \in 0..(n - 1)})
    /\ c = Inner([k \in 1..n |-> Coef(P, Name("g", k - 1))], [k \in 1..n |-> Coef(P, Name("h", k - 1))])

\* all messages of a run, from the vectors
RECURSIVE Run(_, _, _, _, _, _)
Run(a, b, g, h, ux, xs) ==
    IF Len(a) = 1 THEN [L |-> <<>>, R |-> <<>>, a |-> a[1], b |-> b[1]]
    ELSE LET x == Head(xs)
             rest == Run(FoldA(a, x), FoldB(b, x), FoldG(g, x), FoldH(h, x), ux, Tail(xs))
         IN [L |-> <<RoundL(a, b, g, h, ux)>> \o rest.L, R |-> <<RoundR(a, b, g, h, ux)>> \o rest.R,
             a |-> rest.a, b |-> rest.b]

\* An honest run.
Prove ==
    /\ Ev("prove")
    /\ LET a == Red(E.a)
           b == Red(E.b)
           n == Len(a)
           run == Run(a, b, Gs(n), Hs(n), Term(E.xu, "U"), E.xs)
       IN /\ FEq(E.P, FAdd(FExp(Gs(n), a), FExp(Hs(n), b)))
          /\ BMod(E.c, Q) = Inner(a, b)
          /\ RoundsOK(n, E.L, E.R) /\ Len(E.xs) = Len(E.L)
          /\ \A k \in 1..Len(E.L) : FEq(E.L[k], run.L[k]) /\ FEq(E.R[k], run.R[k])
          /\ BMod(E.fa, Q) = run.a /\ BMod(E.fb, Q) = run.b
          /\ E.verdict = "accept"
          /\ IsNil(Relation(E.P, BMod(E.c, Q), E.xu, E.L, E.R, E.xs, run.a, run.b, Gs(n), Hs(n), U))

\* The single equation behind the verdict, elements unknown.
Equation ==
    /\ Ev("equation")
    /\ LET k == Len(E.xs)
           rel == Relation(Term(One, "P"), BMod(E.c, Q), E.xu, [j \in 1..k |-> Term(One, Name("L", j - 1))],
                           [j \in 1..k |-> Term(One, Name("R", j - 1))], E.xs, BMod(E.fa, Q), BMod(E.fb, Q), Gs(E.n), Hs(E.n), U)
       IN /\ Len(E.rows) >= 1
          /\ \A j \in 1..Len(E.rows) : FEq(E.rows[j], FScale(Coef(E.rows[j], "P"), rel))
          /\ \E j \in 1..Len(E.rows) : Coef(E.rows[j], "P") # Zero
    /\ E.flipped = "reject"

\* Any transcript.
Judge ==
    /\ Ev("judge")
    /\ E.verdict \in {"accept", "reject"}
    /\ (E.verdict = "accept") <=>
         (RoundsOK(E.n, E.L, E.R)
            /\ IsNil(Relation(E.P, BMod(E.c, Q), E.xu, E.L, E.R, E.xs, BMod(E.fa, Q), BMod(E.fb, Q), Gs(E.n), Hs(E.n), U)))
    /\ (E.verdict = "accept") => TrueStatement(E.P, BMod(E.c, Q), E.n)

\* The wrong number of rounds, all comparisons answered "equal".
Shape == /\ Ev("shape")
         /\ E.verdict \in {"accept", "reject"}
         /\ (E.verdict = "accept") => IsPow2(E.n) /\ E.l = Log2(E.n) /\ E.r = Log2(E.n)

\* vectors of different lengths: an error or a proof that fails
Mismatch == Ev("mismatch") /\ E.verdict \in {"error", "reject"}


\* real groups
Real == /\ Ev("real") /\ E.honest = "accept"
        /\ \A k \in 1..Len(E.damaged) : E.damaged[k] = "reject"

Next == Prove \/ Equation \/ Judge \/ Shape \/ Mismatch \/ (Ev("blind") /\ ((E.verdict = "accept") => TrueStatement(E.P, BMod(E.c, Q), E.n)))
        \/ Real \/ (i = Len(Trace) /\ UNCHANGED i)
Spec == Init /\ [][Next]_i
=============================================================================
