------------------------------ MODULE Session ------------------------------
(* Threads that share parameters and objects. Objects (proofs, ballots) and *)
(* parameters are values: once made they never change, and the verdict on   *)
(* an object is a function of that object alone, whatever was done before,  *)
(* or is being done at the same time, by whom and in which group.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Threads
VARIABLES good,   \* objects made so far -> whether they are valid
          busy    \* thread -> operation under way
svars == <<good, busy>>

Idle == [op |-> "idle"]
Makes == {"setup", "prove", "multi", "equal", "cast", "alter", "parse"}
Uses == {"verify", "alter", "parse", "marshal"}
Quality(op) == CASE op.op = "alter" -> FALSE
                 [] op.op = "parse" -> good[op.o]
                 [] OTHER -> TRUE

SInit == good = [x \in {} |-> TRUE] /\ busy = [t \in Threads |-> Idle]
Begin(t, op) ==
    /\ busy[t] = Idle
    /\ op.op \in Uses => op.o \in DOMAIN good
    /\ op.op \in {"prove", "multi", "equal", "cast", "encrypt"} => op.p \in DOMAIN good
    /\ op.op \in Makes => op.new \notin DOMAIN good
    /\ busy' = [busy EXCEPT ![t] = op]
    /\ UNCHANGED good
Verdict(o) == IF good[o] THEN "accept" ELSE "reject"
Result(op) == IF op.op = "verify" THEN Verdict(op.o) ELSE "ok"
End(t, result) ==
    /\ busy[t] # Idle
    /\ result = Result(busy[t])
    /\ good' = IF busy[t].op \in Makes THEN good @@ (busy[t].new :> Quality(busy[t])) ELSE good
    /\ busy' = [busy EXCEPT ![t] = Idle]
=============================================================================
