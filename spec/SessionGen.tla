----------------------------- MODULE SessionGen -----------------------------
(* Random histories of Session (run with -simulate), for replay one after   *)
(* the other and concurrently. Three threads share two parameter sets and   *)
(* six objects, and work on those and on what they made themselves.         *)
EXTENDS Session, Json, IOUtils, CSV
CONSTANTS Groups, Depth
VARIABLES hist, done
T == 1..3
O(t, k, p, o, a, new) == [t |-> t, op |-> k, p |-> p, o |-> o, arg |-> a, new |-> new]
Start(g1, g2) == <<O(0, "setup", "", "", g1, "p1"), O(0, "setup", "", "", g2, "p2"),
          O(0, "prove", "p1", "", 0, "s1"), O(0, "multi", "p2", "", 1, "s2"), O(0, "equal", "p1", "", 2, "s3"), O(0, "cast", "p2", "", 0, "s4"),
          O(0, "alter", "", "s4", 3, "s5"), O(0, "alter", "", "s1", 1, "s6")>>
Init == \E g1, g2 \in Groups : hist = Start(g1, g2) /\ done = FALSE /\ good = [x \in {} |-> TRUE] /\ busy = <<>>
\* objects with their makers: everything shared, or made by the thread
Mine(t) == {hist[k].new : k \in {j \in 3..Len(hist) : hist[j].t \in {0, t} /\ hist[j].new # "" /\ hist[j].op # "setup"}}
Kinds == {"verify", "prove", "multi", "equal", "cast", "alter", "parse", "marshal", "encrypt", "setup"}
Step(t, k) ==
    LET new == "x" \o ToString(Len(hist))
        p == RandomElement({"p1", "p2"})
        a == RandomElement(0..5)
        o == RandomElement(Mine(t))
    IN CASE k = "verify" -> O(t, k, "", o, 0, "")
         [] k = "marshal" -> O(t, k, "", o, 0, "")
         [] k = "alter" -> O(t, k, "", o, a, new)
         [] k = "parse" -> O(t, k, "", o, 0, new)
         [] k = "setup" -> O(t, k, "", "", RandomElement(Groups), new)
         [] k = "encrypt" -> O(t, k, p, "", a, "")
         [] OTHER -> O(t, k, p, "", a, new)
Walk == /\ Len(hist) < Depth
        /\ \E t \in T, k \in Kinds \cup {"verify2", "verify3"} :
              hist' = Append(hist, Step(t, IF k \in {"verify2", "verify3"} THEN "verify" ELSE k))
        /\ UNCHANGED <<done, svars>>
Emit == /\ Len(hist) = Depth /\ ~done
        /\ CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.GEN)
        /\ done' = TRUE /\ UNCHANGED <<hist, svars>>
Next == Walk \/ Emit
Spec == Init /\ [][Next]_<<hist, done, svars>>
=============================================================================
