----------------------------- MODULE SessionCold -----------------------------
(* Histories of Session in rounds: in each, every thread begins an operation *)
(* before any ends, and nothing was done before the first round. Whatever    *)
(* the library computes on first use is then computed by several threads at  *)
(* once. All threads do the same kind of thing to the same or to different   *)
(* parameters, then all do different things.                                 *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC, FiniteSets, SequencesExt
T == 6
Groups == 4
Deep == IOEnv.TIER = "thorough"
Sizes == IF Deep THEN <<4, 8, 2, 16, 1>> ELSE <<4, 2, 8>>
O(t, k, p, o, a, new) == [t |-> t, op |-> k, p |-> p, o |-> o, arg |-> a, new |-> new]
Name(x, n, t) == x \o ToString(n) \o "-" \o ToString(t)
All(Op(_)) == [t \in 1..T |-> Op(t)]
Next6(t, k) == ((t + k) % T) + 1
\* n: bits; h: a number for each history
Rounds(n, h) ==
    LET p(t) == Name("p", n, t)
        x(k, t) == Name(k, n, t)
        make == <<"prove", "multi", "equal", "cast">>
        setup(t) == O(t, "setup", "", "", ((t + h) % Groups) + 10 * n, p(t))
        \* every thread makes the same kind of object, half of them with
        \* parameters another thread also uses
        made(k) == LET op(t) == O(t, make[k], p(IF t % 2 = 0 THEN t ELSE Next6(t, 0)), "", (t + k) % 2, x(make[k], t)) IN All(op)
        \* and checks the object of another
        checked(k) == LET op(t) == O(t, "verify", "", x(make[k], Next6(t, k)), 0, "") IN All(op)
        same(k) == LET op(t) == O(t, "verify", "", x(make[k], 1), 0, "") IN All(op)
        text(k) == LET op(t) == O(t, IF t % 2 = 0 THEN "marshal" ELSE "parse", "", x(make[k], Next6(t, 1)), 0, IF t % 2 = 0 THEN "" ELSE x("re" \o make[k], t)) IN All(op)
        mixed == LET op(t) == IF t <= 4 THEN O(t, make[t], p(1), "", 1, x("m" \o make[t], t)) ELSE O(t, "encrypt", p(1), "", t, "") IN All(op)
        mixedv == LET op(t) == IF t <= 4 THEN O(t, "verify", "", x("m" \o make[t], t), 0, "") ELSE O(t, "verify", "", x("re" \o make[t - 4], 1), 0, "") IN All(op)
        order == [k \in 1..4 |-> ((k + h) % 4) + 1]
    IN <<All(setup)>> \o FlattenSeq([k \in 1..4 |-> <<made(order[k]), checked(order[k]), same(order[k]), text(order[k])>>]) \o <<mixed, mixedv>>
Out == [k \in 1..Len(Sizes) |-> Rounds(Sizes[k], k)]
ASSUME ndJsonSerialize(IOEnv.GEN, Out)
VARIABLE v
Init == v = 0
Next == UNCHANGED v
=============================================================================
