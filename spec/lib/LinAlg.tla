------------------------------- MODULE LinAlg -------------------------------
(***************************************************************************)
(* Linear algebra over Real.  A vector is a sequence of reals, a matrix a  *)
(* sequence of rows.  Operators whose name also appears in                 *)
(* java/RealOverrides.java are evaluated there; spec/MC_LinAlg.tla checks  *)
(* that those agree with the definitions below (suffix Def).               *)
(***************************************************************************)
EXTENDS Real, Integers, Sequences

Rows(A) == Len(A)
Cols(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])

RECURSIVE RSumTo(_, _)
RSumTo(f, n) == IF n = 0 THEN "0" ELSE RAdd(RSumTo(f, n - 1), f[n])
RSum(f) == RSumTo(f, Len(f))

DotDef(u, v) == RSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
Dot(u, v) == DotDef(u, v)
VecAddDef(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VecAdd(u, v) == VecAddDef(u, v)
VecSubDef(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VecSub(u, v) == VecSubDef(u, v)
VecScale(c, u) == [i \in 1..Len(u) |-> RMul(c, u[i])]
Zeros(n) == [i \in 1..n |-> "0"]

Transpose(A) == [j \in 1..Cols(A) |-> [i \in 1..Rows(A) |-> A[i][j]]]
Column(A, j) == [i \in 1..Rows(A) |-> A[i][j]]
MatAddDef(A, B) == [i \in 1..Rows(A) |-> VecAddDef(A[i], B[i])]
MatAdd(A, B) == MatAddDef(A, B)
MatSubDef(A, B) == [i \in 1..Rows(A) |-> VecSubDef(A[i], B[i])]
MatSub(A, B) == MatSubDef(A, B)
MatScale(c, A) == [i \in 1..Rows(A) |-> VecScale(c, A[i])]
MatMulDef(A, B) == [i \in 1..Rows(A) |-> [j \in 1..Cols(B) |-> DotDef(A[i], Column(B, j))]]
MatMul(A, B) == MatMulDef(A, B)
MatVecDef(A, v) == [i \in 1..Rows(A) |-> DotDef(A[i], v)]
MatVec(A, v) == MatVecDef(A, v)
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]]
ZeroMat(n, m) == [i \in 1..n |-> Zeros(m)]
DiagMat(d) == [i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN R(d[i]) ELSE "0"]]
DiagOf(A) == [i \in 1..Rows(A) |-> A[i][i]]
SubVec(v, idx) == [i \in 1..Len(idx) |-> v[idx[i]]]
SubMat(A, ri, ci) == [i \in 1..Len(ri) |-> [j \in 1..Len(ci) |-> A[ri[i]][ci[j]]]]
ColVec(v) == [i \in 1..Len(v) |-> <<v[i]>>]
HCat(A, B) == [i \in 1..Rows(A) |-> A[i] \o B[i]]
VCat(A, B) == A \o B
IsSymmetric(A) == \A i, j \in 1..Rows(A) : A[i][j] = A[j][i]
Outer(u, v) == [i \in 1..Len(u) |-> [j \in 1..Len(v) |-> RMul(u[i], v[j])]]

\* Determinant by cofactor expansion along the first row (definition).
Minor(A, j) == [r \in 1..(Rows(A) - 1) |->
                  [c \in 1..(Rows(A) - 1) |-> A[r + 1][IF c < j THEN c ELSE c + 1]]]
RECURSIVE DetDef(_)
DetDef(A) == IF Rows(A) = 0 THEN "1"
             ELSE RSum([j \in 1..Rows(A) |->
                    RMul(IF j % 2 = 1 THEN A[1][j] ELSE RNeg(A[1][j]), DetDef(Minor(A, j)))])
Det(A) == DetDef(A)

\* Solution of A X = B by Cramer's rule (definition).
ReplaceCol(A, j, v) == [r \in 1..Rows(A) |-> [A[r] EXCEPT ![j] = v[r]]]
MatSolveDef(A, B) == [i \in 1..Rows(A) |-> [k \in 1..Cols(B) |->
                        RDiv(DetDef(ReplaceCol(A, i, Column(B, k))), DetDef(A))]]
MatSolve(A, B) == MatSolveDef(A, B)
VecSolve(A, v) == Column(MatSolve(A, ColVec(v)), 1)
Inverse(A) == IF Rows(A) = 0 THEN <<>> ELSE MatSolve(A, Identity(Rows(A)))
LogDet(A) == RLog(Det(A))

VecNearDef(u, v, rtol, atol) == Len(u) = Len(v) /\ \A i \in 1..Len(u) : RNear(u[i], v[i], rtol, atol)
VecNear(u, v, rtol, atol) == VecNearDef(u, v, rtol, atol)
MatNearDef(A, B, rtol, atol) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VecNearDef(A[i], B[i], rtol, atol)
MatNear(A, B, rtol, atol) == MatNearDef(A, B, rtol, atol)
=============================================================================
