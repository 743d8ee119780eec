------------------------------ MODULE GroupMC ------------------------------
(* The register machine over the integers modulo 5, explored exhaustively:  *)
(* the laws the implementation is compared with hold in every reachable     *)
(* state and step.                                                          *)
EXTENDS GroupRegs, TLC, FiniteSets, Integers
Q == 5
PlusQ(a, b) == (a + b) % Q
MinusQ(a) == (Q - a) % Q
TimesQ(s, a) == ((s % Q) * a) % Q
ScalMC == {-7, -1, 0, 1, 2, 4, 5, 6, 11}
VARIABLES reg, last
OpsMC == {O(op, d, a, b, 0) : op \in {"add", "sub"}, d \in 1..3, a \in 1..3, b \in 1..3}
    \cup {O(op, d, a, 1, 0) : op \in {"neg", "set"}, d \in 1..3, a \in 1..3}
    \cup {O("scale", d, a, 1, s) : d \in 1..3, a \in 1..3, s \in ScalMC}
    \cup {O("base", d, 1, 1, s) : d \in 1..3, s \in ScalMC} \cup {O("gen", d, 1, 1, 0) : d \in 1..3}
Init == reg = <<0, 0, 0>> /\ last = O("idn", 1, 1, 1, 0)
Next == \E o \in OpsMC : reg' = Step(o, reg) /\ last' = o
Spec == Init /\ [][Next]_<<reg, last>>
View == reg
InGroup == \A k \in 1..3 : reg[k] \in 0..(Q - 1)
\* only the receiver changes
Frame == [][\A k \in 1..3 : k # last'.d => reg'[k] = reg[k]]_<<reg, last>>
\* laws relating operations, in every state
Laws == \A a, b \in 1..3 :
          /\ Value(O("sub", 1, a, b, 0), reg) = PlusQ(reg[a], Value(O("neg", 1, b, 1, 0), reg))
          /\ Value(O("scale", 1, a, 1, 2), reg) = Value(O("add", 1, a, a, 0), reg)
          /\ Value(O("scale", 1, a, 1, -1), reg) = Value(O("neg", 1, a, 1, 0), reg)
          /\ \A s \in ScalMC : Value(O("scale", 1, a, 1, s), reg) = Value(O("scale", 1, a, 1, s + Q), reg)
          /\ \A s, t \in ScalMC : TimesQ(s + t, reg[a]) = PlusQ(TimesQ(s, reg[a]), TimesQ(t, reg[a]))
          /\ EqMatrix(reg)[a][b] = EqMatrix(reg)[b][a]
=============================================================================
