----------------------------- MODULE SessionMC -----------------------------
(* Session with a few names, and an observer: verdicts given so far are     *)
(* consistent per object whatever the interleaving, and objects keep their  *)
(* quality.                                                                 *)
EXTENDS Session
CONSTANTS Names, MaxOps
VARIABLES verdicts, n
vars == <<svars, verdicts, n>>
Op(k, o, new) == [op |-> k, o |-> o, p |-> "p", new |-> new]
Operations == {Op("verify", o, "") : o \in Names} \cup {Op("setup", "", "p")} \cup {Op("prove", "", x) : x \in Names}
              \cup {Op(k, o, x) : k \in {"alter", "parse"}, o \in Names, x \in Names}
Init == SInit /\ verdicts = {} /\ n = 0
\* two threads do not make the same name
Taken == {busy[t].new : t \in {x \in Threads : busy[x].op \in Makes}}
Start == \E t \in Threads, op \in Operations : n < MaxOps /\ op.new \notin Taken /\ Begin(t, op) /\ n' = n + 1 /\ UNCHANGED verdicts
Finish == \E t \in Threads, r \in {"ok", "accept", "reject"} :
            /\ End(t, r)
            /\ verdicts' = IF busy[t].op = "verify" THEN verdicts \cup {<<busy[t].o, r>>} ELSE verdicts
            /\ UNCHANGED n
Next == Start \/ Finish
Spec == Init /\ [][Next]_vars
Consistent == \A a, b \in verdicts : a[1] = b[1] => a[2] = b[2]
Kept == [][\A x \in DOMAIN good : x \in DOMAIN good' /\ good'[x] = good[x]]_vars
Derived == \A v \in verdicts : v[2] = Verdict(v[1])
=============================================================================
