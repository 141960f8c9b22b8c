------------------------------- MODULE Solvers -------------------------------
(***************************************************************************)
(* C18.  Every structured matrix denotes a dense one; factorizations,      *)
(* solves, square roots, determinants and products are those of the dense  *)
(* matrix.  State: the system at hand [kind, A] and the latest QR.         *)
(* A "solver" system (explained, direct) is given by its inverse instead.  *)
(***************************************************************************)
EXTENDS LinAlg, FiniteSets, TLC, SequencesExt, Verdicts

\* dense meaning of a block diagonal matrix (blocks may be rectangular, but have a column)
RECURSIVE SumCols(_)
SumCols(bs) == IF bs = <<>> THEN 0 ELSE Cols(Head(bs)) + SumCols(Tail(bs))
RECURSIVE BlockRows(_, _, _)
BlockRows(bs, before, total) ==
  IF bs = <<>> THEN <<>>
  ELSE LET b == Head(bs) IN
       [r \in 1..Len(b) |-> Zeros(before) \o b[r] \o Zeros(total - before - Len(b[r]))] \o BlockRows(Tail(bs), before + Cols(b), total)
BlockDense(bs) == BlockRows(bs, 0, SumCols(bs))
Bordered(A, B, C) == VCat(HCat(A, B), HCat(Transpose(B), C))
RECURSIVE SumAll(_)
SumAll(ms) == IF Len(ms) = 1 THEN ms[1] ELSE MatAdd(Head(ms), SumAll(Tail(ms)))

RECURSIVE SumStack(_)
SumStack(ms) == IF ms = <<>> THEN <<>> ELSE Head(ms) \o SumStack(Tail(ms))
SumAbs(v) == RSum([n \in 1..Len(v) |-> RAbs(v[n])])

\* what the solver of a system multiplies with is its inverse
ByInverse == {"explained", "direct"}
InverseOf(e) ==
  CASE e.kind = "explained" -> LET h == MatSolve(e.outer, e.inner) IN Transpose(MatSolve(e.outer, Transpose(h)))
    [] e.kind = "direct" -> e.inverse
DenseOf(e) ==
  CASE e.kind = "dense" -> e.A
    [] e.kind = "blocks" -> BlockDense(e.blocks)
    [] e.kind = "bordered" -> Bordered(e.A, e.B, e.C)
    [] e.kind \in ByInverse -> InverseOf(e)

Start == [kind |-> "none", A |-> <<>>, S |-> <<>>, qr |-> "none"]
After(st, e) ==
  CASE e.op = "system" -> [st EXCEPT !.kind = e.kind, !.A = DenseOf(e), !.S = <<>>]
    [] e.op = "grown" -> \* bordered by further rows, in terms of the system so far
         [st EXCEPT !.kind = "dense", !.A = Bordered(IF st.kind \in ByInverse THEN Inverse(st.A) ELSE st.A, e.B, e.C)]
    [] e.op = "sqrt" -> [st EXCEPT !.S = e.S]
    [] e.op = "qr" -> [st EXCEPT !.qr = [A |-> e.A, R |-> e.R, P |-> e.P]]
    [] OTHER -> st

Near(a, b) == MatNear(a, b, "1e-8", "1e-8")
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], MaxOf(Tail(s)))
SizeV(v) == MaxOf(<<"0">> \o [n \in 1..Len(v) |-> RAbs(v[n])])
Size(A) == MaxOf(<<"0">> \o [r \in 1..Len(A) |-> SizeV(A[r])])
\* relative to the size of the expected matrix, whatever its units
Like(a, b) == MatNear(a, b, "1e-8", RMul("1e-8", Size(b)))
LikeV(a, b) == VecNear(a, b, "1e-8", RMul("1e-8", SizeV(b)))
\* relative to the sizes of the factors of an expected product
LikeProduct(a, x, y) == MatNear(a, MatMul(x, y), "1e-8", RMul("1e-8", RMul(Size(x), Size(y))))
Solve(st, rhs) == IF st.kind \in ByInverse THEN MatMul(st.A, rhs) ELSE MatSolve(st.A, rhs)
Pick(A, idx) == SubMat(A, [n \in 1..Len(idx) |-> idx[n] + 1], [n \in 1..Len(idx) |-> idx[n] + 1])
\* column j of M * P is column P[j] of M
Permute(M, P) == [r \in 1..Len(M) |-> [c \in 1..Len(P) |-> M[r][P[c] + 1]]]
IsPermutation(P) == {P[n] : n \in 1..Len(P)} = 0..(Len(P) - 1)
UpperTriangular(T) == \A r, c \in 1..Len(T) : c < r => REq(T[r][c], 0)
ColumnSum(A, c) == RSum([r \in 1..Len(A) |-> RAbs(A[r][c])])
Norm1(A) == MaxOf([c \in 1..Len(A) |-> ColumnSum(A, c)])
\* least norm solution restricted to eigenvalues of at least thr, for A = Q diag(d) Q'
Truncated(Q, d, thr, rhs) ==
  LET inv == [n \in 1..Len(d) |-> IF RLeq(thr, d[n]) THEN RDiv("1", d[n]) ELSE "0"]
  IN MatMul(Q, MatMul(DiagMat(inv), MatMul(Transpose(Q), rhs)))
SortedEig(d, up) == SortSeq(d, LAMBDA a, b : IF up THEN RLt(a, b) ELSE RLt(b, a))

Verdict(st, e) ==
  CASE e.op \in {"system", "grown"} -> ""
    [] e.op = "solve" -> Chk(Like(e.out, Solve(st, e.rhs)), "solve (" \o e.how \o ")")
    [] e.op = "product" -> Chk(LikeProduct(e.out, st.A, e.rhs), "product with a block diagonal matrix")
    [] e.op = "dense" -> Chk(Like(e.out, st.A), "dense form of a structured matrix")
    [] e.op = "diagonal" -> Chk(LikeV(e.out, DiagOf(st.A)), "diagonal of a structured matrix")
    [] e.op = "shape" -> Chk(e.rows = Rows(st.A) /\ e.cols = Cols(st.A), "size of a structured matrix")
    [] e.op = "minus" -> Chk(Like(BlockDense(e.out), MatSub(st.A, BlockDense(e.rhs))), "difference of block diagonal matrices")
    [] e.op = "sqrt" -> Chk(Like(MatMul(e.S, Transpose(e.S)), st.A), "square root of a matrix")
    [] e.op = "sqrt_product" -> Chk(LikeProduct(e.out, st.S, e.rhs), "product with the square root")
    [] e.op = "sqrt_transpose" -> Chk(Like(e.out, Transpose(st.S)), "transposed square root")
    [] e.op = "sqrt_solve" -> Chk(Like(MatMul(st.S, e.out), e.rhs), "solve with the square root")
    [] e.op = "sqrt_transpose_solve" -> Chk(Like(MatMul(Transpose(st.S), e.out), e.rhs), "solve with the transposed square root")
    [] e.op = "whiten" -> Chk(Like(MatMul(Transpose(e.out), e.out), MatMul(Transpose(e.rhs), MatSolve(st.A, e.rhs))), "whitening (" \o e.how \o ")")
    [] e.op = "same" -> Chk(e.a = e.b, "with and without threads: " \o e.what)
    [] e.op = "log_det" -> Chk(RNear(e.out, LogDet(st.A), "1e-8", "1e-8"), "log determinant")
    [] e.op = "positive" -> Chk(e.out = e.expect, "positive definiteness")
    [] e.op = "norm" -> Chk(RNear(e.out, Norm1(st.A), "1e-10", 0), "l1 norm")
    [] e.op = "rcond" -> \* an estimate, never below the truth nor above one
         Chk(LET truth == RDiv("1", RMul(Norm1(st.A), Norm1(Inverse(st.A)))) IN
             RLeq(RMul(truth, "0.999999"), e.out) /\ RLeq(e.out, RMin("1.000001", RMul(truth, RMul(10, Len(st.A))))), "reciprocal condition number")
    [] e.op = "inverse_blocks" ->
         LET inv == Inverse(st.A) IN
         Chk(Len(e.out) = Len(e.idx) /\ \A n \in 1..Len(e.idx) : Like(e.out[n], Pick(inv, e.idx[n])), "blocks of the inverse")
    [] e.op = "inverse_diagonal" -> Chk(LikeV(e.out, DiagOf(Inverse(st.A))), "diagonal of the inverse")
    [] e.op = "pseudo" -> \* diagonal matrix with zeros: zero where it has no inverse
         Chk(Like(MatMul(Transpose(e.out), e.out), DiagMat([n \in 1..Len(st.A) |-> IF REq(st.A[n][n], 0) THEN "0" ELSE RDiv("1", st.A[n][n])])), "solve with a singular square root")
    [] e.op = "qr" ->
         FirstOf(<<Chk(IsPermutation(e.P) /\ Len(e.P) = Cols(e.A), "permutation of a QR decomposition"),
                   Chk(Len(e.R) = Cols(e.A) /\ UpperTriangular(e.R), "shape of R"),
                   Chk(Near(MatMul(Transpose(e.R), e.R), LET AP == Permute(e.A, e.P) IN MatMul(Transpose(AP), AP)), "R and P of a QR decomposition (" \o e.kind \o ")")>>)
    [] e.op = "qr_sqrt_solve" -> \* R' out = P' rhs
         Chk(Near(MatMul(Transpose(st.qr.R), e.out), [n \in 1..Len(st.qr.P) |-> e.rhs[st.qr.P[n] + 1]]), "square root solve with a QR decomposition (" \o e.how \o ")")
    [] e.op = "qr_solve" -> Chk(Near(MatMul(Transpose(st.qr.A), MatMul(st.qr.A, e.out)), MatMul(Transpose(st.qr.A), e.rhs)), "least squares with a sparse QR decomposition")
    [] e.op = "pivot" ->
         Chk(RNear(e.out, IF e.rows < e.min \/ e.cols < e.min THEN "1e-15"
                          ELSE LET m == MaxOf(<<"0">> \o e.norms) IN
                               RMul(RMul(e.coef, e.rows + e.cols), RMul(IF REq(m, 0) THEN "1" ELSE m, e.eps)), "1e-12", 0), "pivot threshold")
    [] e.op = "stack" -> Chk(e.out = SumStack(e.blocks), "vertical stack")
    [] e.op = "truncated" -> Chk(MatNear(e.out, Truncated(e.Q, e.d, e.threshold, e.rhs), "1e-7", "1e-7"), "truncated solve")
    [] e.op = "block_sum" -> Chk(Near(e.out, SumAll(e.xs)), "sum of blocks")
    [] e.op = "block_product" -> Chk(Near(e.out, SumAll([n \in 1..Len(e.xs) |-> MatMul(e.xs[n], e.ys[n])])), "product of blocks")
    [] e.op = "block_inner" -> Chk(Near(e.out, SumAll([n \in 1..Len(e.xs) |-> MatMul(Transpose(e.xs[n]), e.ys[n])])), "inner product of blocks")
    [] e.op = "block_solve" -> Chk(e.keys_out = e.keys /\ \A n \in 1..Len(e.keys) : Near(e.out[n], MatSolve(e.xs[n], e.ys[n])), "solve of blocks")
    [] e.op = "block_minus" -> Chk(e.keys_out = e.keys /\ \A n \in 1..Len(e.keys) : Near(e.out[n], MatSub(e.xs[n], e.ys[n])), "difference of blocks")
    [] e.op = "directions" -> \* printed: the first eigen pairs in order
         LET want == SortedEig(e.d, e.ascending) A == MatMul(e.Q, MatMul(DiagMat(e.d), Transpose(e.Q))) IN
         FirstOf(<<Chk(Len(e.out) = e.count /\ \A n \in 1..e.count : RNear(e.out[n].value, want[n], "1e-5", "1e-6"), "printed eigen values"),
                   Chk(RNear(e.min, SortedEig(e.d, TRUE)[1], "1e-5", "1e-6") /\ RNear(e.max, SortedEig(e.d, FALSE)[1], "1e-5", "1e-6"), "printed range of eigen values"),
                   Chk(\A n \in 1..e.count : LET c == e.out[n].coefs
                                                 v == [r \in 1..Len(A) |-> RSum([k \in 1..Len(c) |-> IF c[k][2] = r - 1 THEN c[k][1] ELSE "0"])] IN
                          /\ \A k \in 1..Len(c) : RLeq(e.threshold, RAbs(c[k][1])) /\ (k > 1 => RLeq(RAbs(c[k][1]), RAdd(RAbs(c[k - 1][1]), "1e-5")))
                          /\ VecNear(MatVec(A, v), VecScale(e.out[n].value, v), 0, RMul(RMul("2", RAdd(e.threshold, "1e-5")), RAdd("1", RMul(Len(A), SumAbs(e.d)))))
                          /\ RNear(Dot(v, v), 1, 0, RAdd("1e-4", RMul(RSq(e.threshold), Len(A)))), "printed eigen vectors")>>)
=============================================================================
