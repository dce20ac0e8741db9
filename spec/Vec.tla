-------------------------------- MODULE Vec --------------------------------
(* Vectors (sequences of numbers) and dense matrices (sequences of rows).     *)
EXTENDS Rat, TLC

(* The results are computed at once: a function constructor is otherwise evaluated again at each application. *)
Now(x) == TLCEval(x)

VZero(n)       == Now([i \in 1..n |-> "0"])
VAdd(x, y)     == Now([i \in 1..Len(x) |-> RAdd(x[i], y[i])])
VSub(x, y)     == Now([i \in 1..Len(x) |-> RSub(x[i], y[i])])
VScale(a, x)   == Now([i \in 1..Len(x) |-> RMul(a, x[i])])
VAxpy(a, x, y) == Now([i \in 1..Len(x) |-> RAdd(RMul(a, x[i]), y[i])])
VFin(x)        == \A i \in 1..Len(x) : RFin(x[i])
VEq(x, y)      == Len(x) = Len(y) /\ \A i \in 1..Len(x) : REq(x[i], y[i])
\* bitwise preserved: recorded again with the same value (non-finite stays non-finite)
VClose(x, y)   == RVClose(x, y)
MNRows(A)      == Len(A)
MNCols(A)      == IF A = <<>> THEN 0 ELSE Len(A[1])
MTrans(A)      == Now([j \in 1..MNCols(A) |-> Now([i \in 1..Len(A) |-> A[i][j]])])
MVec(A, x)     == Now([i \in 1..Len(A) |-> RDot(A[i], x)])
MMul(A, B)     == LET T == MTrans(B)
                  IN Now([i \in 1..Len(A) |-> Now([j \in 1..Len(T) |-> RDot(A[i], T[j])])])
MAdd(A, B)     == Now([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MSub(A, B)     == Now([i \in 1..Len(A) |-> VSub(A[i], B[i])])
MScale(a, A)   == Now([i \in 1..Len(A) |-> VScale(a, A[i])])
MZero(n, m)    == Now([i \in 1..n |-> VZero(m)])
MIdent(n)      == Now([i \in 1..n |-> Now([j \in 1..n |-> IF i = j THEN "1" ELSE "0"])])
MEq(A, B)      == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VEq(A[i], B[i])
MClose(A, B)   == Len(A) = Len(B) /\ \A i \in 1..Len(A) : RVClose(A[i], B[i])
AClose(A, B)   == Len(A) = Len(B) /\ \A i \in 1..Len(A) : MClose(A[i], B[i])
AEq(A, B)      == Len(A) = Len(B) /\ \A i \in 1..Len(A) : MEq(A[i], B[i])
=============================================================================
