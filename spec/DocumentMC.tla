----------------------------- MODULE DocumentMC -----------------------------
(* The reader as a machine: it takes the parts in some order, stops at the  *)
(* first damaged required one, and verifies when all are read. Checked: no  *)
(* order and no set of at most Most damages lets a document with a required *)
(* part damaged be accepted, an intact one always is, and reading ends.     *)
EXTENDS Document, TLC, FiniteSetsExt
CONSTANTS Kind, K, Most
VARIABLES damaged, read, out
vars == <<damaged, read, out>>
Parts == Required(Kind, K) \cup Carried(Kind)
Init == read = {} /\ out = "" /\ damaged \in UNION {kSubset(m, Required(Kind, K)) : m \in 0..Most}
\* a part lies under a node: it can be reached only after the node was read
Prefix(p, q) == Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p
Ready(p) == \A n \in Nodes(Kind) : Prefix(n, p) => n \in read
Todo == Required(Kind, K) \ read
First == CHOOSE p \in Todo : Ready(p)
Read == out = "" /\ Todo # {} /\ LET p == First IN
          IF p \in damaged THEN out' = "error" /\ UNCHANGED <<damaged, read>>
          ELSE read' = read \cup {p} /\ UNCHANGED <<damaged, out>>
Verify == out = "" /\ Todo = {} /\ out' = "accept" /\ UNCHANGED <<damaged, read>>
Next == Read \/ Verify
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Sound == out # "" => out \in Outcomes(Kind, K, {<<p, "absent">> : p \in damaged})
Ends == <>(out # "")
=============================================================================
