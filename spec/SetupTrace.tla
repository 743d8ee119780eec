---------------------------- MODULE SetupTrace ----------------------------
(* Range-proof setup: for which range ends it succeeds, and what its        *)
(* generators are. Outcomes are recorded for intervals of arguments.        *)
EXTENDS BigScalars, Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Init == i = 0

Sizes == {1, 2, 4, 8, 16, 32}                    \* supported bit lengths
Ends == {BPow2(n) : n \in Sizes}
Powers2 == {BPow2(n) : n \in 0..63}
Inside(x, e) == BLe(e.from, x) /\ BLe(x, e.to)

\* success for exactly the supported ends; never a panic or a wrong result
Setup == /\ Ev("setup")
         /\ \/ E.outcome = "ok" /\ E.from = E.to /\ E.from \in Ends
            \/ E.outcome = "error" /\ \A x \in Ends : ~Inside(x, E)
\* (1 and 2 are the only neighbouring powers)
Power == /\ Ev("power")
         /\ \/ E.outcome = "yes" /\ E.from \in Powers2 /\ E.to \in Powers2 /\ BLe(BSub(E.to, E.from), "1")
            \/ E.outcome = "no" /\ \A x \in Powers2 : ~Inside(x, E)

Expected(n) == {"H", "U"} \cup {"g" \o ToString(k) : k \in 0..(n - 1)} \cup {"h" \o ToString(k) : k \in 0..(n - 1)}
Range(f) == {f[x] : x \in DOMAIN f}

\* over the symbolic group: each generator is the image of its own seed
Gens == /\ Ev("gens")
        /\ E.base
        /\ DOMAIN E.seeds = Expected(E.n)
        /\ "" \notin Range(E.seeds)
        /\ Cardinality(Range(E.seeds)) = Cardinality(DOMAIN E.seeds)

\* over the real groups: the same images, distinct, proper, deterministic
RealGens == /\ Ev("realgens")
            /\ E.bits = E.n /\ E.ng = E.n /\ E.nh = E.n
            /\ E.base /\ E.same /\ E.mapped /\ E.proper /\ E.distinct
            /\ Cardinality(Range(E.strings)) = Len(E.strings)
            /\ Len(E.strings) = 2 * E.n + 3

Next == Setup \/ Power \/ Gens \/ RealGens \/ (i = Len(Trace) /\ UNCHANGED i)
Spec == Init /\ [][Next]_i
=============================================================================
