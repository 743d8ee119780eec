-------------------------- MODULE ArithmeticTrace --------------------------
(* Recorded calls of the helpers against Arithmetic. E.in and E.after are   *)
(* the arguments before and after the call.                                 *)
EXTENDS Arithmetic, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
E == Trace[i + 1]
Init == i = 0
A == E.in.a
B == E.in.b
K == E.in.k
M == E.in.m
\* calls on two vectors
Two == {"VectorAdd", "VectorSub", "VectorMul", "ScalarProduct", "VectorExp", "VectorECAdd"}
Mismatch == E.f \in Two /\ Len(A) # Len(B)
Forms(x) == [j \in 1..Len(x) |-> Lin(x[j], M)]
Value ==
    CASE E.f = "VectorAdd" -> VecAdd(A, B, M)
      [] E.f = "VectorSub" -> VecSub(A, B, M)
      [] E.f = "VectorMul" -> VecMul(A, B, M)
      [] E.f = "VectorAddConst" -> VecAddConst(A, K, M)
      [] E.f = "VectorScalarMul" -> VecScale(A, K, M)
      [] E.f = "VectorInnerProduct" -> <<InnerN(A, B, M)>>
      [] E.f = "ScalarProduct" -> <<InnerN(A, B, M)>>
      [] E.f = "VectorCopy" -> CopyN(K, E.in.n)
      [] E.f = "VectorConvertToBig" -> [j \in 1..E.in.n |-> A[j]]
      [] E.f = "powerOf" -> PowersN(K, E.in.n, M)
      [] E.f = "Decompose" -> DigitsN(K, M, E.in.n)
      [] E.f = "VectorExp" -> <<LExp(Forms(A), B, Len(A), M)>>
      [] E.f = "VectorECAdd" -> [j \in 1..Len(A) |-> LPlus(Lin(A[j], M), Lin(B[j], M), M)]
      [] E.f = "PedersenCommit" -> <<Ped(A[1], B[1], K, M)>>
\* powers are compared as residues
Same(v, w) == IF E.f = "powerOf" THEN Len(v) = Len(w) /\ \A j \in 1..Len(v) : BMod(v[j], M) = BMod(w[j], M) ELSE v = w
Call == /\ i < Len(Trace) /\ E.ev = "vec" /\ i' = i + 1
        /\ E.in = E.after
        /\ IF Mismatch THEN E.outcome = "error"
           ELSE E.outcome = "ok" /\ Same(Value, E.out)
\* over the real groups the result has the same logarithm
Real == /\ i < Len(Trace) /\ E.ev = "realvec" /\ i' = i + 1 /\ E.equal /\ E.kept
Next == Call \/ Real \/ (i = Len(Trace) /\ UNCHANGED i)
Spec == Init /\ [][Next]_i
=============================================================================
