-------------------------- MODULE LinearCombinations --------------------------
(***************************************************************************)
(* C11.  A linear combination of features denotes the same combination of  *)
(* the values of the process: covariances are bilinear and means linear in *)
(* it, matrices act on features as on values, and a Gaussian process       *)
(* predicts a combination as the combination of its predictions.           *)
(* State: the current covariance and mean expression, and the data a       *)
(* process was fit to.                                                     *)
(***************************************************************************)
EXTENDS Gaussian, Verdicts

Start == [cov |-> "none", mean |-> "none", data |-> "none"]
After(st, e) ==
  CASE e.op = "expr" -> [st EXCEPT !.cov = e.expr]
    [] e.op = "mean_expr" -> [st EXCEPT !.mean = e.expr]
    [] e.op = "fit" -> [st EXCEPT !.data = [xs |-> e.xs, y |-> e.y, noise |-> e.noise]]
    [] OTHER -> st

\* a combination as a map from plain features to their total coefficient (zeros omitted)
Total(w, f) == RSum([n \in 1..Len(w) |-> IF w[n].f = f THEN w[n].c ELSE "0"])
SameCombination(a, b) == \A f \in {a[n].f : n \in 1..Len(a)} \cup {b[n].f : n \in 1..Len(b)} : RNear(Total(a, f), Total(b, f), "1e-14", "1e-13")
WellFormed(lc) == lc.t = "lc" /\ Len(lc.c) = Len(lc.of)
RowTimes(row, fs) == Weighted([t |-> "lc", c |-> row, of |-> fs])

Verdict(st, e) ==
  CASE e.op \in {"expr", "mean_expr", "fit"} -> ""
    [] e.op = "cov" -> Chk(CovIs(st.cov, e.out, e.x, e.y, "1e-11"), "covariance of a linear combination")
    [] e.op = "matrix" -> Chk(Len(e.ys) = 0 \/ CovMatrixIs(st.cov, e.out, e.xs, e.ys, "1e-11"), "cross covariance of linear combinations")
    [] e.op = "gram" -> Chk(CovMatrixIs(st.cov, e.out, e.xs, e.xs, "1e-11"), "covariance matrix of linear combinations")
    [] e.op = "diag" -> Chk(CovDiagIs(st.cov, e.out, e.xs, "1e-11"), "variances of linear combinations")
    [] e.op = "mean" -> Chk(MeanIs(st.mean, e.out, e.x, "1e-12"), "mean of a linear combination")
    [] e.op = "mean_vector" -> Chk(MeanVectorIs(st.mean, e.out, e.xs, "1e-12"), "means of linear combinations")
    [] e.op = "build" -> Chk(WellFormed(e.out) /\ e.out.of = e.of /\ VecNear(e.out.c, e.c, "1e-15", 0), "building a linear combination (" \o e.kind \o ")")
    [] e.op = "product" -> \* rows of matrix * features
         Chk(Len(e.out) = Len(e.A) /\ \A n \in 1..Len(e.A) : WellFormed(e.out[n]) /\ SameCombination(Weighted(e.out[n]), RowTimes(e.A[n], e.xs)),
             "matrix times features (" \o e.kind \o ")")
    [] e.op = "mapped" -> \* predicting matrix * features is mapping the prediction of the features
         FirstOf(<<Chk(JointNear(e.combined, [mean |-> MatVec(e.A, e.plain.mean), cov |-> MatMul(MatMul(e.A, e.plain.cov), Transpose(e.A))], "1e-7", "1e-7"),
                       "prediction of linear combinations is not the combination of predictions"),
                   Chk(VecNear(e.mean, e.combined.mean, "1e-8", "1e-8") /\ VecNear(e.marginal.mean, e.combined.mean, "1e-8", "1e-8")
                       /\ VecNear(e.marginal.var, DiagOf(e.combined.cov), "1e-7", "1e-7"), "mean, marginal and joint of linear combinations differ")>>)
    [] e.op = "posterior" -> Chk(JointNear(e.out, Posterior(st.cov, st.mean, st.data, e.xs), "1e-7", "1e-7"), "posterior with linear combinations")
    [] e.op = "prior" -> Chk(JointNear(e.out, Prior(st.cov, st.mean, e.xs), "1e-10", "1e-9"), "prior of linear combinations")
    [] e.op = "as_map" -> Chk(JointNear(e.out, [mean |-> MatVec(e.A, MeanVector(st.mean, e.xs)), cov |-> MatMul(MatMul(e.A, Gram(st.cov, e.xs)), Transpose(e.A))], "1e-10", "1e-9"),
                              "mean and covariance of matrix * features")
=============================================================================
