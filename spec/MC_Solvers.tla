------------------------------ MODULE MC_Solvers ------------------------------
(***************************************************************************)
(* The pivoted factorization P A P' = L D L' as a machine: each step moves *)
(* the largest remaining diagonal entry up and eliminates it.  On every    *)
(* small positive semi-definite matrix the factors reproduce A at every    *)
(* step, the pivots descend, and from the finished factors determinant,    *)
(* solve, square root and inverse blocks follow as the library computes    *)
(* them; solving by blocks equals solving the bordered matrix.             *)
(***************************************************************************)
EXTENDS Solvers, Json, IOUtils
CONSTANTS Diag, Off
Sym3 == {<<<<a, d, e>>, <<d, b, f>>, <<e, f, c>>>> : a, b, c \in Diag, d, e, f \in Off}
Sym2 == {<<<<a, d>>, <<d, b>>>> : a, b \in Diag, d \in Off}
Minors(A) == LET n == Len(A) IN {SetToSortSeq(s, <) : s \in SUBSET (1..n) \ {{}}}
Psd(A) == \A idx \in Minors(A) : RLeq(0, Det(SubMat(A, idx, idx)))
Matrices == {A \in Sym3 \cup Sym2 \cup {<<<<2>>>>} : Psd(A)}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[A |-> A] : A \in Matrices}))
VARIABLES A, W, L, D, P, k
vars == <<A, W, L, D, P, k>>
Init == A \in Matrices /\ W = A /\ L = Identity(Len(A)) /\ D = <<>> /\ P = [i \in 1..Len(A) |-> i] /\ k = 1
Swap(s, i, j) == [n \in DOMAIN s |-> IF n = i THEN s[j] ELSE IF n = j THEN s[i] ELSE s[n]]
SwapBoth(M, i, j) == Swap([r \in 1..Len(M) |-> Swap(M[r], i, j)], i, j)
Largest == CHOOSE i \in k..Len(A) : \A j \in k..Len(A) : RLeq(W[j][j], W[i][i])
\* W is the remaining Schur complement in rows and columns k.. (zero elsewhere)
Eliminate ==
  LET i == Largest V == SwapBoth(W, k, i) d == V[k][k]
      l == [r \in 1..Len(A) |-> IF r = k THEN "1" ELSE IF r < k \/ REq(d, 0) THEN "0" ELSE RDiv(V[r][k], d)]
      Lswap == [r \in 1..Len(A) |-> [c \in 1..Len(A) |-> IF c < k THEN Swap([x \in 1..Len(A) |-> L[x][c]], k, i)[r] ELSE L[r][c]]]
  IN /\ D' = Append(D, d)
     /\ P' = Swap(P, k, i)
     /\ L' = [r \in 1..Len(A) |-> [c \in 1..Len(A) |-> IF c = k THEN l[r] ELSE Lswap[r][c]]]
     /\ W' = [r \in 1..Len(A) |-> [c \in 1..Len(A) |-> IF r <= k \/ c <= k THEN "0" ELSE RSub(V[r][c], RMul(RMul(l[r], l[c]), d))]]
     /\ k' = k + 1 /\ A' = A
Next == k <= Len(A) /\ Eliminate
Done == k > Len(A)
PAP == SubMat(A, P, P)
E15(a, b) == MatNear(a, b, "1e-15", "1e-15")
Reproduces ==
  LET Lk == [r \in 1..Len(A) |-> [c \in 1..Len(D) |-> L[r][c]]]
      part == IF D = <<>> THEN ZeroMat(Len(A), Len(A)) ELSE MatMul(MatMul(Lk, DiagMat(D)), Transpose(Lk))
  IN E15(PAP, MatAdd(part, W))
Descending == \A i \in 1..Len(D) : RLeq(0, D[i]) /\ (i > 1 => RLeq(D[i], RAdd(D[i - 1], "1e-15")))
Singular == \E i \in 1..Len(D) : REq(D[i], 0)
\* a zero pivot means that nothing is left
ZeroMeansDone == \A i \in 1..Len(D) : RNear(D[i], 0, 0, "1e-25") => \A j \in i..Len(D) : RNear(D[j], 0, 0, "1e-25")
DetIsPivots == Done => RNear(Det(A), FoldLeft(LAMBDA a, b : RMul(a, b), "1", D), "1e-15", "1e-15")
\* square root P' L sqrt(D)
Undo(M) == [r \in 1..Len(M) |-> M[CHOOSE n \in 1..Len(P) : P[n] = r]]
Root == Undo(MatMul(L, DiagMat([i \in 1..Len(D) |-> RSqrt(D[i])])))
RootSquares == Done => E15(MatMul(Root, Transpose(Root)), A)
InverseFromRoot == (Done /\ ~Singular) =>
   LET Wm == MatSolve(Root, Identity(Len(A))) IN E15(MatMul(Transpose(Wm), Wm), Inverse(A))
\* solving a bordered system through its Schur complement
Blocked == (Done /\ ~Singular /\ Len(A) = 3) =>
   LET a == SubMat(A, <<1, 2>>, <<1, 2>>) b == SubMat(A, <<1, 2>>, <<3>>) c == SubMat(A, <<3>>, <<3>>)
       aib == MatSolve(a, b) s == MatSub(c, MatMul(Transpose(b), aib))
       rhs == <<<<1>>, <<-2>>, <<3>>>>
       x == MatSolve(s, MatSub(<<rhs[3]>>, MatMul(Transpose(aib), <<rhs[1], rhs[2]>>)))
       top == MatSub(MatSolve(a, <<rhs[1], rhs[2]>>), MatMul(aib, x))
   IN E15(VCat(top, x), MatSolve(A, rhs)) /\ E15(A, Bordered(a, b, c))
=============================================================================
