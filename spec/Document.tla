------------------------------ MODULE Document ------------------------------
(* Serialised proofs and ballots as labelled trees. A document has required *)
(* parts (everything that takes part in verification) and carried parts     *)
(* (the public parameters that go along). A reader works through a document *)
(* in order, checks that each required part is present and well formed and  *)
(* only then verifies; so a document with any required part damaged ends in *)
(* an error or a negative verdict.                                          *)
EXTENDS Integers, Sequences, FiniteSets

Under(p, S) == {p \o q : q \in S}
Leaf(S) == {<<x>> : x \in S}

(* ------------------------------------------------------ range proofs ---- *)
\* k rounds of the inner-product argument
Idx == <<"#0", "#1", "#2", "#3", "#4">>
IP == <<"InnerProductProof">>
BPElems(k) == Leaf({"V", "A", "S", "T1", "T2"}) \cup {IP \o <<"P">>}
              \cup {IP \o <<l, Idx[j]>> : l \in {"L", "R"}, j \in 1..k}
BPNums == Leaf({"Taux", "Mu", "Tprime"}) \cup Under(IP, Leaf({"Cc", "a", "b"}))
BPLists == Under(IP, Leaf({"L", "R"}))
BPNodes == {IP}
BPCarried == {<<"Params">>, IP \o <<"Params">>} \cup Under(IP \o <<"Params">>, Leaf({"Uu", "Gg", "Hh", "GP"}))

(* --------------------------------------------------- equality proofs ---- *)
EqElems == Leaf({"W", "Kp", "Kq1", "Kq2"})
EqNums == Leaf({"Challenge", "Z", "Sp", "Sq1", "Sq2"})
EqCarried == {<<"Params">>} \cup Under(<<"Params">>, Leaf({"Bx", "Bc", "Bg", "Bb", "RangeLo", "RangeHi", "GFF", "GEC"}))
             \cup {<<"Params", g, f>> : g \in {"GFF", "GEC"}, f \in {"G", "H", "N", "F", "I"}}

(* ------------------------------------------------------- ciphertexts ---- *)
CtElems == Leaf({"u", "v"})

(* ------------------------------------------------------------ ballots --- *)
Both(S) == Under(<<"lbProof">>, S) \cup Under(<<"ubProof">>, S)
Elems(kind, k) == CASE kind = "bp" -> BPElems(k)
                    [] kind = "eq" -> EqElems
                    [] kind = "ct" -> CtElems
                    [] kind = "ballot" -> Under(<<"ballot">>, CtElems) \cup Both(BPElems(k)) \cup Under(<<"voteProof">>, EqElems)
Nums(kind) == CASE kind = "bp" -> BPNums
                [] kind = "eq" -> EqNums
                [] kind = "ct" -> {}
                [] kind = "ballot" -> Both(BPNums) \cup Under(<<"voteProof">>, EqNums)
Lists(kind) == CASE kind = "bp" -> BPLists [] kind = "ballot" -> Both(BPLists) [] OTHER -> {}
Nodes(kind) == CASE kind = "bp" -> BPNodes
                 [] kind = "ballot" -> Both(BPNodes) \cup Leaf({"ballot", "lbProof", "ubProof", "voteProof"})
                 [] OTHER -> {}
Carried(kind) == CASE kind = "bp" -> BPCarried
                   [] kind = "eq" -> EqCarried
                   [] kind = "ct" -> {}
                   [] kind = "ballot" -> Both(BPCarried) \cup Under(<<"voteProof">>, EqCarried)
Required(kind, k) == Elems(kind, k) \cup Nums(kind) \cup Lists(kind) \cup Nodes(kind)

(* ------------------------------------------------------------ damages --- *)
Any == {"absent", "null", "string", "true", "list", "object"}
HowElem == Any \cup {"zero", "negative", "fraction", "outside", "foreign", "partial", "wrap"}
HowNum == (Any \ {"zero"}) \cup {"fraction", "huge", "hex", "keyed"}
HowList == (Any \ {"list"}) \cup {"empty", "shorter", "longer", "shift", "nested", "repeat"}
HowNode == Any \cup {"number", "wrap"}
HowCarried == Any \cup {"number", "huge"}

Damages(kind, k) == (Elems(kind, k) \X HowElem) \cup (Nums(kind) \X HowNum) \cup (Lists(kind) \X HowList)
                    \cup (Nodes(kind) \X HowNode) \cup (Carried(kind) \X HowCarried)
\* the whole text
HowText == {"nothing", "nulltext", "listtext", "numbertext", "stringtext", "brace", "emptyobject",
            "trailing", "twice", "deep", "bom", "cut"}

\* What reading a document may come to: d is the set of damages done to it.
Outcomes(kind, k, d) ==
    IF d = {} THEN {"accept"}
    ELSE IF \E x \in d : x[1] \in Required(kind, k) THEN {"error", "reject"}
    ELSE {"accept", "error", "reject"}     \* only carried parameters touched
=============================================================================
