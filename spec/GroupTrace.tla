----------------------------- MODULE GroupTrace -----------------------------
(* Validates recorded programs of the implementation's group elements       *)
(* against GroupRegs over the groups of CurveGroups: after every operation  *)
(* every register has exactly the prescribed value, equality and identity   *)
(* tests and string forms agree with the values, the receiver is returned,  *)
(* and arguments and group constants are unchanged.                         *)
EXTENDS CurveGroups, Json, IOUtils, FiniteSets

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, reg, grp, mapped, start
vars == <<i, reg, grp, mapped, start>>
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1

GroupOf(e) == CASE e.group = "secp256k1" -> K256
                [] e.group = "P-256" -> P256
                [] e.group = "P-384" -> P384
                [] e.group = "ristretto255" -> R255
                [] OTHER -> Residues(e.p, e.g[1])

PlusG(a, b) == TLCEval(GAdd(grp, a, b))
MinusG(a) == TLCEval(GNeg(grp, a))
TimesG(s, a) == TLCEval(GTimes(grp, s, a))
R == INSTANCE GroupRegs WITH Plus <- PlusG, Minus <- MinusG, Times <- TimesG, Null <- GZero(grp), Base <- grp.g

Init == i = 0 /\ reg = <<>> /\ grp = K256 /\ mapped = <<>> /\ start = <<>>

\* same values have the same string, different values different strings
Strings(r, cls) == \A a, b \in 1..Len(r) : (r[a] = r[b]) <=> (cls[a] = cls[b])
Observed(r) == /\ E.regs = r
               /\ E.eq = R!EqMatrix(r)
               /\ E.id = R!IdVector(r)
               /\ Strings(r, E.cls)

Consts(e, G) == e.p = G.p /\ e.n = G.n /\ e.g = G.g /\ e.zero = GZero(G)

\* a program starts with registers of known values
Session == /\ Ev("session")
           /\ LET G == GroupOf(E) IN
                /\ Consts(E, G)
                /\ E.regs = start \/ \A k \in 1..Len(E.regs) : GMember(G, E.regs[k])
                /\ grp' = G
           /\ start' = E.regs
           /\ reg' = E.regs /\ mapped' = IF grp' = grp THEN mapped ELSE <<>>

Op == /\ Ev("op") /\ E.op # "map"
      /\ reg' = R!Step(E, reg)
      /\ Observed(reg')
      /\ E.returned /\ E.kept /\ E.consts
      /\ UNCHANGED <<grp, mapped, start>>

\* hashing to the group is a function of the string, into the group
Lookup(str) == {m \in {mapped[k] : k \in 1..Len(mapped)} : m.s = str}
Map == /\ Ev("op") /\ E.op = "map"
       /\ LET v == E.regs[E.d] IN
            /\ GMember(grp, v) /\ v # GZero(grp) /\ v # grp.g
            /\ IF Lookup(E.s) # {} THEN \A m \in Lookup(E.s) : m.v = v
               ELSE \A k \in 1..Len(mapped) : mapped[k].v # v
            /\ mapped' = IF Lookup(E.s) # {} THEN mapped ELSE Append(mapped, [s |-> E.s, v |-> v])
            /\ reg' = [reg EXCEPT ![E.d] = v]
       /\ Observed(reg')
       /\ E.returned /\ E.kept /\ E.consts
       /\ UNCHANGED <<grp, start>>

\* sampled elements are members, different ones in a large group; in a small
\* one enough of them meet every member but possibly the zero
RECURSIVE Multiples(_, _, _)
Multiples(G, k, v) == IF k = 0 THEN {} ELSE {v} \cup Multiples(G, k - 1, TLCEval(GAdd(G, v, G.g)))
Random == /\ Ev("random")
          /\ LET G == GroupOf(E)
                 vs == {E.values[k] : k \in 1..Len(E.values)}
             IN /\ Consts(E, G)
                /\ \A v \in vs : GMember(G, v)
                /\ IF E.small THEN Multiples(G, BToInt(G.n) - 1, G.g) \subseteq vs
                   ELSE Cardinality(vs) = Len(E.values) /\ GZero(G) \notin vs
          /\ UNCHANGED <<reg, grp, mapped, start>>

Next == Session \/ Op \/ Map \/ Random \/ (i = Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
