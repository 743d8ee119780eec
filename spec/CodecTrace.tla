----------------------------- MODULE CodecTrace -----------------------------
(* Encodings of group elements. What a byte string or document means is     *)
(* defined here from CurveGroups; decoding may succeed only with exactly    *)
(* that element, must succeed on the encodings the implementation produces, *)
(* and never panics.                                                        *)
EXTENDS CurveGroups, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, grp
vars == <<i, grp>>
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1

GroupOf(e) == CASE e.group = "secp256k1" -> K256
                [] e.group = "P-256" -> P256
                [] e.group = "P-384" -> P384
                [] e.group = "ristretto255" -> R255
                [] OTHER -> Residues(e.p, e.g[1])
Init == i = 0 /\ grp = K256
Session == Ev("session") /\ grp' = GroupOf(E)

None == <<"none">>
IsElem(x) == x # None /\ GMember(grp, x)

RECURSIVE BE(_, _), LE(_, _)
BE(b, k) == IF k = 0 THEN "0" ELSE BAdd(BMul(BE(b, k - 1), "256"), BOf(b[k]))
LE(b, k) == IF k > Len(b) THEN "0" ELSE BAdd(BMul(LE(b, k + 1), "256"), BOf(b[k]))
Num(b) == BE(b, Len(b))
Width == IF grp = P384 THEN 48 ELSE 32
\* a pair of coordinates; (0, 0) stands for the identity
Pair(x, y) == IF x = "0" /\ y = "0" THEN <<>> ELSE IF WOn(grp, <<x, y>>) THEN <<x, y>> ELSE None

\* meaning of a byte string: the element it encodes, or None
Compressed(b) ==
    LET x == Num(SubSeq(b, 2, Len(b)))
        rhs == Ad(grp, Ad(grp, Ml(grp, Ml(grp, x, x), x), Ml(grp, grp.a, x)), grp.b)
        y == BExp(rhs, BDiv(BAdd(grp.p, "1"), "4"), grp.p)      \* p = 3 mod 4
        yy == IF BMod(y, "2") = BOf(b[1] % 2) THEN y ELSE Sb(grp, "0", y)
    IN IF BLt(x, grp.p) /\ Ml(grp, y, y) = rhs THEN <<x, yy>> ELSE None
Bytes(b) ==
    IF grp = K256 THEN IF Len(b) = 64 THEN Pair(Num(SubSeq(b, 1, 32)), Num(SubSeq(b, 33, 64))) ELSE None
    ELSE IF grp.kind = "w" THEN
        IF b = <<0>> THEN <<>>
        ELSE IF Len(b) = 1 + 2 * Width /\ b[1] = 4
             THEN LET x == Num(SubSeq(b, 2, 1 + Width)) y == Num(SubSeq(b, 2 + Width, Len(b)))
                  IN IF WOn(grp, <<x, y>>) THEN <<x, y>> ELSE None
        ELSE IF Len(b) = 1 + Width /\ b[1] \in {2, 3} THEN Compressed(b)
        ELSE None
    ELSE IF grp.kind = "r" THEN IF Len(b) = 32 /\ EdDecode(LE(b, 1)).ok THEN <<LE(b, 1)>> ELSE None
    ELSE LET v == <<Num(b)>> IN IF GMember(grp, v) THEN v ELSE None

\* meaning of a document: coordinates, or the bytes of the string, or the number
Doc(e) == IF e.shape # "plain" THEN None
          ELSE IF grp.kind = "w" THEN Pair(e.x, e.y)
          ELSE IF grp.kind = "r" THEN Bytes(e.bytes)
          ELSE IF GMember(grp, <<e.x>>) THEN <<e.x>> ELSE None

Judge(meaning) == /\ E.outcome \in {"ok", "error"}
                  /\ (E.outcome = "ok") => meaning # None /\ E.value = meaning
FromBytes == Ev("bytes") /\ Judge(Bytes(E.bytes)) /\ UNCHANGED grp
FromNumber == Ev("number") /\ Judge(IF GMember(grp, <<E.x>>) THEN <<E.x>> ELSE None) /\ UNCHANGED grp
FromDoc == Ev("doc") /\ Judge(Doc(E)) /\ UNCHANGED grp

\* an element of the group, encoded and decoded both ways: the same element
RoundTrip ==
    /\ Ev("roundtrip")
    /\ GMember(grp, E.value)
    /\ E.bin = E.value /\ E.json = E.value
    /\ E.binEqual /\ E.jsonEqual /\ E.kept
    /\ (E.jx # "") => Pair(E.jx, E.jy) = E.value        \* the document carries the coordinates
    /\ UNCHANGED grp

Next == Session \/ FromBytes \/ FromNumber \/ FromDoc \/ RoundTrip \/ (i = Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
