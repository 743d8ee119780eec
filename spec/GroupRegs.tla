---------------------------- MODULE GroupRegs ----------------------------
(* A machine with K registers holding group elements. Every operation of    *)
(* the element interface sets one register and leaves all others alone.     *)
EXTENDS Naturals, Sequences
CONSTANTS Plus(_, _), Minus(_), Times(_, _), Null, Base

\* the value operation o computes from registers r
Value(o, r) ==
    CASE o.op = "add" -> Plus(r[o.a], r[o.b])
      [] o.op = "sub" -> Plus(r[o.a], Minus(r[o.b]))
      [] o.op = "neg" -> Minus(r[o.a])
      [] o.op = "scale" -> Times(o.s, r[o.a])
      [] o.op = "base" -> Times(o.s, Base)
      [] o.op \in {"set", "bin", "json"} -> r[o.a]        \* copy, decode(encode)
      [] o.op = "gen" -> Base
      [] o.op = "idn" -> Null

Step(o, r) == [r EXCEPT ![o.d] = Value(o, r)]

\* What can be observed of registers r: who equals whom, who is the identity.
EqMatrix(r) == [x \in 1..Len(r) |-> [y \in 1..Len(r) |-> r[x] = r[y]]]
IdVector(r) == [x \in 1..Len(r) |-> r[x] = Null]

\* --- the operations, as programs ------------------------------------------------
Scalars == {"0", "1", "2", "3", "-1", "-2", "q", "q-1", "q+1", "-q", "2q", "half", "big", "-big", "rnd"}
O(op, d, a, b, s) == [op |-> op, d |-> d, a |-> a, b |-> b, s |-> s]
Ops(K) == {O(op, d, a, b, "") : op \in {"add", "sub"}, d \in 1..K, a \in 1..K, b \in 1..K}
     \cup {O(op, d, a, 1, "") : op \in {"neg", "set", "bin", "json"}, d \in 1..K, a \in 1..K}
     \cup {O("scale", d, a, 1, s) : d \in 1..K, a \in 1..K, s \in Scalars}
     \cup {O("base", d, 1, 1, s) : d \in 1..K, s \in Scalars}
     \cup {O(op, d, 1, 1, "") : op \in {"gen", "idn"}, d \in 1..K}
Maps(K) == {O("map", d, 1, 1, s) : d \in 1..K, s \in {"one", "two", "", "1", "one ", "long1", "long2"}}
=============================================================================
