--------------------------- MODULE ElectionTrace ---------------------------
(* Validates what the implementation did with ballots. Ballots over the     *)
(* symbolic groups are logged with their ciphertext and commitments as      *)
(* forms, so that what they contain is visible to the specification.        *)
(* WHAT: "complete" | "sound" | "tamper" | "params"                          *)
EXTENDS EqProof, Json, IOUtils, Integers

Trace == ndJsonDeserialize(IOEnv.TRACE)
P == IOEnv.ORDERFF
Q == IOEnv.ORDER
What == IOEnv.WHAT
VARIABLES i, met
vars == <<i, met>>
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Keep == UNCHANGED met
Is(w) == What = w

Init == i = 0 /\ met = {}

\* The ballot encrypts a candidate of the range under the election key, and
\* both commitments are bound to the same candidate.
NumberIn(b) == FP!Coef(b.V, "G")
Valid(b, lo, hi) ==
    LET m == NumberIn(b) IN
    /\ FP!Within(b.U, {"G"})
    /\ FP!Within(b.V, {"G", "PK"}) /\ FP!Coef(b.V, "PK") = FP!Coef(b.U, "G")
    /\ BLe(BOf(lo), m) /\ BLe(m, BOf(hi))
    /\ FQ!Within(b.lower, {"G", "H"}) /\ FQ!Coef(b.lower, "G") = ModQ(BSub(m, BOf(lo)))
    /\ FQ!Within(b.upper, {"G", "H"}) /\ FQ!Coef(b.upper, "G") = ModQ(BSub(BOf(hi), m))

\* An honest ballot: valid, accepted, also after a JSON round trip.
Cast == /\ Ev("cast")
        /\ Is("complete") => Valid(E, E.lo, E.hi) /\ E.verdict = "accept" /\ E.json = "accept"
        /\ met' = met \cup {<<E.tag, NumberIn(E)>>}

\* every candidate of a small range was chosen in many casts
Reached == /\ Ev("reached")
           /\ Is("complete") => {n[2] : n \in {p \in met : p[1] = E.tag}} = {BOf(k) : k \in E.lo..E.hi}
           /\ Keep

\* In a wide range the choices are spread over all of it: of many casts, some
\* fall into every sixteenth, and every bit of the offset is seen both ways
\* (E.bits of them vary enough to be told).
Spread == /\ Ev("spread")
          /\ Is("complete") =>
               LET off == {BToInt(BSub(n[2], BOf(E.lo))) : n \in {p \in met : p[1] = E.tag}}
                   span == E.hi - E.lo + 1
               IN /\ {(o * 16) \div span : o \in off} = 0..15
                  /\ \A k \in 0..(E.bits - 1) : {(o \div 2^k) % 2 : o \in off} = {0, 1}
          /\ Keep

\* real groups, where only decryption shows the number
CastReal == /\ Ev("castreal")
            /\ Is("complete") => E.number >= E.lo /\ E.number <= E.hi /\ E.verdict = "accept" /\ E.json = "accept"
            /\ Keep

\* A ballot assembled by an adversary: accepted only if valid.
Submit == /\ Ev("submit")
          /\ Is("sound") => /\ E.verdict \in {"accept", "reject"}
                            /\ (E.verdict = "accept") => Valid(E, E.lo, E.hi)
          /\ Keep

\* the same against real groups: number is what the ciphertext decrypts to,
\* -1 if that is no number, consistent says all parts claim the same number
SubmitReal == /\ Ev("submitreal")
              /\ Is("sound") => /\ E.verdict \in {"accept", "reject"}
                                /\ (E.verdict = "accept") => (E.number >= E.lo /\ E.number <= E.hi /\ E.consistent)
              /\ Keep

\* one strategy, several independent plays: not all win
Forgery == /\ Ev("forgery")
           /\ Is("sound") => ~ \A k \in 1..Len(E.plays) : E.plays[k].verdict = "accept" /\ ~Valid(E.plays[k], E.lo, E.hi)
           /\ Keep

\* A recombination: accepted if and only if it is one of the ballots.
Splice == /\ Ev("splice")
          /\ Is("tamper") =>
               LET original == E.u = E.v /\ E.v = E.lo /\ E.lo = E.up /\ E.up = E.eq /\ E.lr = "lower" /\ E.ur = "upper"
               IN /\ E.verdict = IF original THEN "accept" ELSE "reject"
          /\ Keep

\* A changed part: rejected (or refused when parsing).
Tamper == /\ Ev("tamper")
          /\ Is("tamper") => E.verdict = "reject" /\ E.json \in {"reject", "error"}
          /\ Keep

\* Embedded parameters were replaced. The ballot may be refused; it is never
\* accepted unless it is valid for the election and its response is in the
\* election's window.
Params == /\ Ev("params")
          /\ Is("params") => \A v \in {E.verdict, E.json} :
                /\ v \in {"accept", "reject", "error"}
                /\ (v = "accept") => Valid(E, E.lo, E.hi) /\ InWindow(E.z, E.bx, E.bc, E.bb)
          /\ Keep

\* a range proof on its own, parsed with the verifier's parameters; one for
\* another number of bits is no proof under them
RangeParams == /\ Ev("rangeparams")
               /\ Is("params") => /\ E.verdict \in {"accept", "reject", "error"}
                                  /\ (E.verdict = "accept") => /\ FQ!Within(E.V, {"G", "H"})
                                                               /\ BLt(FQ!Coef(E.V, "G"), BPow2(E.n)) /\ E.bits = E.n
               /\ Keep

\* An invalid ballot or proof over real groups with foreign parameters in it.
ParamsReal == /\ Ev("paramsreal")
              /\ Is("params") => E.verdict \in {"reject", "error"}
              /\ Keep

NoBallot == Ev("noballot") /\ ~Is("complete") /\ Keep

Next == Cast \/ Reached \/ Spread \/ CastReal \/ Submit \/ SubmitReal \/ Forgery \/ Splice \/ Tamper \/ Params \/ RangeParams \/ ParamsReal
        \/ NoBallot \/ (i = Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
