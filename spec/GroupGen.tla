----------------------------- MODULE GroupGen -----------------------------
(* Programs for the register machine: every single operation, and random    *)
(* walks (run with -simulate).                                              *)
EXTENDS GroupRegs, TLC, Json, IOUtils, CSV
CONSTANTS K, D
VARIABLES hist, done
P0(a, b) == 0
M0(a) == 0

All == Ops(K) \cup Maps(K)
Init == hist = <<>> /\ done = FALSE
\* choose the kind first, so that walks are not dominated by scalings
Walk == /\ Len(hist) < D
        /\ \E o \in All : hist' = Append(hist, o)
        /\ UNCHANGED done
Emit == /\ Len(hist) = D /\ ~done
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN)
        /\ done' = TRUE /\ UNCHANGED hist
Next == Walk \/ Emit
Spec == Init /\ [][Next]_<<hist, done>>
=============================================================================
