---------------------------- MODULE CurveGroups ----------------------------
(* The five groups the implementation offers, defined from their standards: *)
(* affine short-Weierstrass curves (secp256k1, P-256, P-384), ristretto255  *)
(* (RFC 9496, through edwards25519), and the quadratic residues modulo a    *)
(* safe prime. Elements are canonical tuples of numerals: <<>> or <<x, y>>  *)
(* for a curve point, <<s>> for a ristretto255 encoding, <<v>> for a        *)
(* residue; equality of elements is equality of these.                      *)
EXTENDS BigScalars, Sequences, TLC

W(p, n, a, b, gx, gy) == [kind |-> "w", p |-> p, n |-> n, a |-> a, b |-> b, g |-> <<gx, gy>>]

K256 == W("115792089237316195423570985008687907853269984665640564039457584007908834671663",
          "115792089237316195423570985008687907852837564279074904382605163141518161494337",
          "0", "7",
          "55066263022277343669578718895168534326250603453777594175500187360389116729240",
          "32670510020758816978083085130507043184471273380659243275938904335757337482424")
P256 == W("115792089210356248762697446949407573530086143415290314195533631308867097853951",
          "115792089210356248762697446949407573529996955224135760342422259061068512044369",
          "115792089210356248762697446949407573530086143415290314195533631308867097853948",
          "41058363725152142129326129780047268409114441015993725554835256314039467401291",
          "48439561293906451759052585252797914202762949526041747995844080717082404635286",
          "36134250956749795798585127919587881956611106672985015071877198253568414405109")
P384 == W("39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112319",
          "39402006196394479212279040100143613805079739270465446667946905279627659399113263569398956308152294913554433653942643",
          "39402006196394479212279040100143613805079739270465446667948293404245721771496870329047266088258938001861606973112316",
          "27580193559959705877849011840389048093056905856361568521428707301988689241309860865136260764883745107765439761230575",
          "26247035095799689268623156744566981891852923491109213387815615900925518854738050089022388053975719786650872476732087",
          "8325710961489029985546751289520108179287853048861315594709205902480503199884419224438643760392947333078086511627871")
P25519 == "57896044618658097711785492504343953926634992332820282019728792003956564819949"
R255 == [kind |-> "r", p |-> P25519,
         n |-> "7237005577332262213973186563042994240857116359379907606001950938285454250989",
         g |-> <<"53453403443306840533278073560698739391446669128918427283046925944918568268514">>]
\* quadratic residues modulo the safe prime p, generator g
Residues(p, g) == [kind |-> "m", p |-> p, n |-> BDiv(p, "2"), g |-> <<g>>]

\* --- field -------------------------------------------------------------------
Ad(G, x, y) == BMod(BAdd(x, y), G.p)
Sb(G, x, y) == BMod(BSub(x, y), G.p)
Ml(G, x, y) == BMod(BMul(x, y), G.p)
Iv(G, x) == BInv(x, G.p)

\* --- short Weierstrass ---------------------------------------------------------
WOn(G, P) == \/ P = <<>>
             \/ /\ Len(P) = 2
                /\ \A c \in {P[1], P[2]} : BLe("0", c) /\ BLt(c, G.p)
                /\ Ml(G, P[2], P[2]) = Ad(G, Ad(G, Ml(G, Ml(G, P[1], P[1]), P[1]), Ml(G, G.a, P[1])), G.b)
WNeg(G, P) == IF P = <<>> THEN P ELSE <<P[1], Sb(G, "0", P[2])>>
WChord(G, P, R, m) == LET x == Sb(G, Sb(G, Ml(G, m, m), P[1]), R[1])
                      IN TLCEval(<<x, Sb(G, Ml(G, m, Sb(G, P[1], x)), P[2])>>)
WAdd(G, P, R) ==
    IF P = <<>> THEN R ELSE IF R = <<>> THEN P
    ELSE IF P[1] # R[1] THEN WChord(G, P, R, Ml(G, Sb(G, R[2], P[2]), Iv(G, Sb(G, R[1], P[1]))))
    ELSE IF P[2] # R[2] \/ P[2] = "0" THEN <<>>
    ELSE WChord(G, P, R, Ml(G, Ad(G, Ml(G, "3", Ml(G, P[1], P[1])), G.a), Iv(G, Ml(G, "2", P[2]))))

\* --- edwards25519 and ristretto255 --------------------------------------------
EdD == "37095705934669439343138083508754565189542113879843219016388785533085940283555"
SqrtM1 == "19681161376707505956807079304988542015446066515923890162744021073123829784752"
InvSqrtAMinusD == "54469307008909316920995813868745141605393597292927456921205312896311721017578"
Neg25519(x) == BMod(x, "2") = "1"
Abs25519(x) == IF Neg25519(x) THEN Sb(R255, "0", x) ELSE x
SqrtRatio(u, v) ==
    LET F == R255
        v3 == Ml(F, Ml(F, v, v), v)
        v7 == Ml(F, Ml(F, v3, v3), v)
        r0 == Ml(F, Ml(F, u, v3), BExp(Ml(F, u, v7), BDiv(BSub(F.p, "5"), "8"), F.p))
        chk == Ml(F, v, Ml(F, r0, r0))
        nu == Sb(F, "0", u)
        correct == chk = u
        flipped == chk = nu
        flippedI == chk = Ml(F, nu, SqrtM1)
        r == IF flipped \/ flippedI THEN Ml(F, SqrtM1, r0) ELSE r0
    IN [ok |-> correct \/ flipped, r |-> Abs25519(r)]

EdDecode(s) ==
    LET F == R255
        ss == Ml(F, s, s)
        u1 == Sb(F, "1", ss)
        u2 == Ad(F, "1", ss)
        u2s == Ml(F, u2, u2)
        v == Sb(F, Sb(F, "0", Ml(F, EdD, Ml(F, u1, u1))), u2s)
        q == SqrtRatio("1", Ml(F, v, u2s))
        dx == Ml(F, q.r, u2)
        dy == Ml(F, Ml(F, q.r, dx), v)
        x == Abs25519(Ml(F, Ml(F, "2", s), dx))
        y == Ml(F, u1, dy)
    IN [ok |-> BLe("0", s) /\ BLt(s, F.p) /\ ~Neg25519(s) /\ q.ok /\ ~Neg25519(Ml(F, x, y)) /\ y # "0",
        pt |-> <<x, y>>]

EdEncode(P) ==
    LET F == R255
        x0 == P[1]  y0 == P[2]  t0 == Ml(F, x0, y0)
        u1 == Ml(F, Ad(F, "1", y0), Sb(F, "1", y0))
        u2 == t0
        q == SqrtRatio("1", Ml(F, u1, Ml(F, u2, u2))).r
        d1 == Ml(F, q, u1)
        d2 == Ml(F, q, u2)
        zi == Ml(F, Ml(F, d1, d2), t0)
        rot == Neg25519(Ml(F, t0, zi))
        x == IF rot THEN Ml(F, y0, SqrtM1) ELSE x0
        y1 == IF rot THEN Ml(F, x0, SqrtM1) ELSE y0
        di == IF rot THEN Ml(F, d1, InvSqrtAMinusD) ELSE d2
        y == IF Neg25519(Ml(F, x, zi)) THEN Sb(F, "0", y1) ELSE y1
    IN Abs25519(Ml(F, di, Sb(F, "1", y)))

EdAdd(P, R) ==
    LET F == R255
        xx == Ml(F, P[1], R[1])  yy == Ml(F, P[2], R[2])
        dd == Ml(F, EdD, Ml(F, xx, yy))
        cr == Ad(F, Ml(F, P[1], R[2]), Ml(F, P[2], R[1]))
    IN TLCEval(<<Ml(F, cr, Iv(F, Ad(F, "1", dd))), Ml(F, Ad(F, yy, xx), Iv(F, Sb(F, "1", dd)))>>)
EdZero == <<"0", "1">>

\* --- the group interface -----------------------------------------------------------
RECURSIVE WTimes(_, _, _), EdTimes(_, _)
WTimes(G, k, P) == IF k = "0" THEN <<>>
    ELSE LET h == WTimes(G, BDiv(k, "2"), P)
             d == TLCEval(WAdd(G, h, h))
         IN IF BMod(k, "2") = "1" THEN TLCEval(WAdd(G, d, P)) ELSE d
EdTimes(k, P) == IF k = "0" THEN EdZero
    ELSE LET h == EdTimes(BDiv(k, "2"), P)
             d == TLCEval(EdAdd(h, h))
         IN IF BMod(k, "2") = "1" THEN TLCEval(EdAdd(d, P)) ELSE d

GZero(G) == IF G.kind = "w" THEN <<>> ELSE IF G.kind = "r" THEN <<"0">> ELSE <<"1">>
GMember(G, x) ==
    IF G.kind = "w" THEN WOn(G, x)
    ELSE IF G.kind = "r" THEN Len(x) = 1 /\ EdDecode(x[1]).ok
    ELSE Len(x) = 1 /\ BLt("0", x[1]) /\ BLt(x[1], G.p) /\ BExp(x[1], G.n, G.p) = "1"
GAdd(G, x, y) ==
    IF G.kind = "w" THEN WAdd(G, x, y)
    ELSE IF G.kind = "r" THEN <<EdEncode(EdAdd(EdDecode(x[1]).pt, EdDecode(y[1]).pt))>>
    ELSE <<Ml(G, x[1], y[1])>>
GNeg(G, x) ==
    IF G.kind = "w" THEN WNeg(G, x)
    ELSE IF G.kind = "r" THEN LET P == EdDecode(x[1]).pt IN <<EdEncode(<<Sb(G, "0", P[1]), P[2]>>)>>
    ELSE <<Iv(G, x[1])>>
RECURSIVE GTimes(_, _, _)
GTimes(G, k, x) ==
    LET r == BMod(k, G.n) IN
    IF r # "0" /\ BLt(BDiv(G.n, "2"), r) THEN GNeg(G, GTimes(G, BSub(G.n, r), x))   \* (n - r)x = -(rx)
    ELSE IF G.kind = "w" THEN WTimes(G, r, x)
    ELSE IF G.kind = "r" THEN <<EdEncode(EdTimes(r, EdDecode(x[1]).pt))>>
    ELSE <<BExp(x[1], r, G.p)>>
=============================================================================
