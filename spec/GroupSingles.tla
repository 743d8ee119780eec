--------------------------- MODULE GroupSingles ---------------------------
(* Every single operation of the register machine, and every pair of which  *)
(* the second reads or overwrites what the first wrote.                     *)
EXTENDS GroupRegs, TLC, Json, IOUtils, SequencesExt
P0(a, b) == 0
M0(a) == 0
Few == {"0", "1", "-1", "q-1", "rnd"}
All == Ops(3) \cup Maps(3)
Cut == {o \in All : o.s \in {""} \cup Few}
Touch(o, p) == p.a = o.d \/ p.d = o.d \/ (p.op \in {"add", "sub"} /\ p.b = o.d)
Pairs == {<<o, p>> : o \in {x \in Cut : x.d = 1}, p \in Cut}
\* A selection for the groups whose arithmetic is costly: two registers are
\* enough to show that state is shared between receiver and operand.
Mini == {o \in All : o.d < 3 /\ o.a < 3 /\ o.b < 3 /\ o.s \in {"", "1", "-1", "3", "one"}}
MiniPairs == {<<o, p>> : o \in {x \in Mini : x.d = 1}, p \in Mini}
\* The same value is asked for again after its first holder was overwritten.
Sources == {x \in Mini : x.d = 1 /\ (x.op \in {"map", "gen", "idn", "base"} \/ (x.op \in {"set", "bin", "json", "scale"} /\ x.a = 2))}
Again == {<<o, p, [o EXCEPT !.d = 3]>> : o \in Sources, p \in {x \in Mini : x.d = 1}}
\* Scalars of every size: powers of two, what is just below them, and others.
Widths == {4, 8, 15, 16, 24, 31, 32, 33, 52, 53, 62, 63, 64, 65, 95, 96, 127, 128, 129, 160, 191, 192, 193, 224, 251, 252, 253, 255, 256, 257,
           320, 383, 384, 385, 511, 512, 521, 1024, 2048, 3070, 3071, 3072, 3073, 4096, 6145}
Sizes == {sg \o k \o ToString(w) : sg \in {"", "-"}, k \in {"p", "m", "w"}, w \in Widths}
         \* cube roots of one: on curves with a short endomorphism these multiples share a coordinate
         \cup {"cube", "cube2"}
Progs == CASE IOEnv.KIND = "singles" -> {<<o>> : o \in All}
                                        \cup {<<O("scale", 2, 1, 1, s)>> : s \in Sizes} \cup {<<O("base", 2, 1, 1, s)>> : s \in Sizes}
           [] IOEnv.KIND = "pairs" -> {q \in Pairs : Touch(q[1], q[2])} \cup Again
           [] OTHER -> {q \in MiniPairs : Touch(q[1], q[2])} \cup Again
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Progs))
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
