---------------------------- MODULE DocumentGen ----------------------------
(* Every single damage, every pair of damages to required parts, and every  *)
(* damage to the whole text, for replay.                                    *)
EXTENDS Document, TLC, Json, IOUtils, SequencesExt
Kind == IOEnv.KIND
K == 2
D == {[path |-> d[1], how |-> d[2]] : d \in Damages(Kind, K)}
Few == {"absent", "null", "empty", "shorter", "longer", "outside", "object"}
Cut == {d \in D : d.how \in Few /\ d.path \in Required(Kind, K)}
Of(Seqd, a) == SelectSeq([b \in 1..(Len(Seqd) - a) |-> <<Seqd[a], Seqd[a + b]>>], LAMBDA x : x[1].path # x[2].path)
Mk(Seqd) == FlattenSeq([a \in 1..Len(Seqd) |-> Of(Seqd, a)])
Pairs == IF IOEnv.PAIRS = "no" THEN <<>> ELSE Mk(TLCEval(SetToSeq(Cut)))
Out == <<<<>>>> \o SetToSeq({<<d>> : d \in D}) \o SetToSeq({<<[path |-> <<>>, how |-> h]>> : h \in HowText}) \o Pairs
ASSUME ndJsonSerialize(IOEnv.GEN, Out)
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
