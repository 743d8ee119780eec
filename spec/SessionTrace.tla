---------------------------- MODULE SessionTrace ----------------------------
(* Recorded histories, sequential and concurrent, against Session. A print  *)
(* lists fingerprints of everything that exists: parameters, objects, the   *)
(* inputs given to operations, and the constants of the groups.             *)
EXTENDS Session, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, prints
vars == <<i, prints, svars>>
E == Trace[i + 1]
Ev(name) == i < Len(Trace) /\ E.ev = name /\ i' = i + 1
Init == i = 0 /\ prints = [x \in {} |-> ""] /\ SInit
NewSession == Ev("session") /\ prints' = [x \in {} |-> ""] /\ good' = [x \in {} |-> TRUE] /\ busy' = [t \in Threads |-> Idle]
BeginT == Ev("begin") /\ Begin(E.t, E.op) /\ UNCHANGED prints
EndT == Ev("end") /\ End(E.t, E.result) /\ UNCHANGED prints
\* something is handed to an operation
Given == Ev("given") /\ prints' = (E.name :> E.print) @@ prints /\ UNCHANGED svars
PrintAll ==
    /\ Ev("print")
    /\ DOMAIN prints \subseteq DOMAIN E.things
    /\ \A x \in DOMAIN prints : E.things[x] = prints[x]
    /\ prints' = E.things
    /\ UNCHANGED svars
Next == NewSession \/ BeginT \/ EndT \/ Given \/ PrintAll \/ (i = Len(Trace) /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================
