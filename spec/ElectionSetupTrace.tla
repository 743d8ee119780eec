------------------------- MODULE ElectionSetupTrace -------------------------
(* What the election's own setup produced for every curve group the         *)
(* implementation offers and for groups with orders of every length around  *)
(* the shortest usable one.                                                 *)
EXTENDS ElectionSetup, CurveGroups, FiniteSets, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, lens
vars == <<i, lens>>
E == Trace[i + 1]
Init == i = 0 /\ lens = 0

Known == [n \in {"secp256k1", "P-256", "P-384", "ristretto255"} |->
            CASE n = "secp256k1" -> K256 [] n = "P-256" -> P256 [] n = "P-384" -> P384 [] OTHER -> R255]

\* no Fermat witness against x among the first bases
PrimeLike(x) == \A b \in {"2", "3", "5", "7", "11"} : BExp(b, BSub(x, "1"), x) = "1"
\* the recorded description d = [N, F, G, H, iN, iF, iG] of a group agrees with
\* the group it belongs to
Agrees(d) == d.N = d.iN /\ d.F = d.iF /\ d.G = d.iG

\* the ElGamal group: all quadratic residues modulo a safe prime, with a
\* public key that is a proper element
Residue(F, N, x) == BLt("1", x) /\ BLt(x, F) /\ BExp(x, N, F) = "1"
ElGamalGroup(d) == /\ Agrees(d)
                   /\ Len(d.G) = 1 /\ Len(d.H) = 1
                   /\ d.N = BDiv(d.F, "2") /\ BMod(d.F, "4") = "3"
                   /\ PrimeLike(d.F) /\ PrimeLike(d.N)
                   /\ Residue(d.F, d.N, d.G[1]) /\ Residue(d.F, d.N, d.H[1])

\* the curve group: the one that was asked for; its second generator is
\* the one the range proofs use
CurveGroup(d) == /\ Agrees(d)
                 /\ d.N = E.cg.n /\ d.F = E.cg.p /\ d.G = E.cg.g
                 /\ d.H # d.G
                 /\ E.bp.G = d.G /\ E.bp.H = d.H
                 /\ E.cg.name \in DOMAIN Known =>
                      LET G == Known[E.cg.name] IN
                        /\ d.N = G.n /\ d.F = G.p /\ d.G = G.g
                        /\ GMember(G, d.H) /\ d.H # GZero(G)

Sizes == [bx |-> E.sizes.bx, bc |-> E.sizes.bc, bb |-> E.sizes.bb, bg |-> E.sizes.bg, n |-> E.bp.n,
          lo |-> E.sizes.lo, hi |-> E.sizes.hi, ql |-> BBitLen(E.ec.N), pl |-> BBitLen(E.ff.N)]
Min2(a, b) == IF a < b THEN a ELSE b
Coherent == /\ ElGamalGroup(E.ff)
            /\ CurveGroup(E.ec)
            /\ E.rff = E.ff /\ E.rec = E.ec          \* both copies of the descriptions
            /\ E.pk = E.ff.H                         \* the key votes are encrypted under
            /\ E.lo = E.sizes.lo /\ E.hi = E.sizes.hi
            /\ E.bp.gg = E.bp.n /\ E.bp.hh = E.bp.n
            /\ Fits(Sizes)
            /\ E.sizes.bg = Min2(BBitLen(E.ec.N), BBitLen(E.ff.N))
            /\ E.sizes.bb = E.sizes.bg - 1 - E.sizes.bx - E.sizes.bc
            /\ E.again                               \* the same every time

Ok == /\ i < Len(Trace) /\ E.ev = "setup" /\ E.outcome = "ok"
      /\ Coherent
      /\ lens' = E.sizes.bx + E.sizes.bc
      /\ lens = 0 \/ lens' = lens
      /\ i' = i + 1
\* only a group without room for the proofs is refused
Refused == /\ i < Len(Trace) /\ E.ev = "setup" /\ E.outcome = "error"
           /\ lens > 0
           /\ NoRoom(lens, 0, BBitLen(E.cg.n))
           /\ UNCHANGED lens /\ i' = i + 1
Next == Ok \/ Refused \/ (i = Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
