------------------------------ MODULE Forms -------------------------------
(* Elements of the abstract group: linear forms over named generators with *)
(* coefficients in the scalar field. A form is a function from names to    *)
(* scalars; names outside its domain have coefficient zero. The field is a *)
(* parameter, so that the same definitions are model checked over a tiny   *)
(* field (integers mod a small prime) and used over the real orders        *)
(* (BigScalars) when traces of the implementation are validated.           *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS Add(_, _), Mul(_, _), Neg(_), Inv(_), Of(_)

Zero == Of(0)
One == Of(1)
Sub(a, b) == Add(a, Neg(b))

RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN One ELSE Mul(a, Pow(a, k - 1))

RECURSIVE SumTo(_, _)
\* v[1] + ... + v[k]
SumTo(v, k) == IF k = 0 THEN Zero ELSE Add(SumTo(v, k - 1), v[k])
Sum(v) == SumTo(v, Len(v))

Inner(a, b) == LET p == [i \in 1..Len(a) |-> Mul(a[i], b[i])] IN Sum(p)

------------------------------------------------------------------------------
Nil == [l \in {} |-> Zero]
Coef(f, l) == IF l \in DOMAIN f THEN f[l] ELSE Zero
Term(s, l) == l :> s
FAdd(f, g) == TLCEval([l \in (DOMAIN f \cup DOMAIN g) |-> Add(Coef(f, l), Coef(g, l))])
FScale(s, f) == TLCEval([l \in DOMAIN f |-> Mul(s, f[l])])
FNeg(f) == FScale(Neg(One), f)
FSub(f, g) == FAdd(f, FNeg(g))
FEq(f, g) == \A l \in (DOMAIN f \cup DOMAIN g) : Coef(f, l) = Coef(g, l)
IsNil(f) == \A l \in DOMAIN f : f[l] = Zero

RECURSIVE FSumTo(_, _)
FSumTo(fs, k) == IF k = 0 THEN Nil ELSE FAdd(FSumTo(fs, k - 1), fs[k])
FSum(fs) == FSumTo(fs, Len(fs))
\* fs[1]^v[1] ... fs[n]^v[n]
FExp(fs, v) == LET t == [i \in 1..Len(v) |-> FScale(v[i], fs[i])] IN FSum(t)

\* a form supported on the given names only
Within(f, ls) == \A l \in DOMAIN f : l \in ls \/ f[l] = Zero

Name(base, i) == base \o ToString(i)
GenG(i) == Term(One, Name("g", i - 1))
GenH(i) == Term(One, Name("h", i - 1))
=============================================================================
