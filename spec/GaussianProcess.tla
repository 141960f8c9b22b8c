--------------------------- MODULE GaussianProcess ---------------------------
(***************************************************************************)
(* C16, C17.  A Gaussian process is a mean and covariance expression; a    *)
(* fit is what it was conditioned on: optionally a predicted joint         *)
(* distribution of some latent features (base), then measurements in any   *)
(* number of batches.  However the fit was built, predictions are the      *)
(* conditional distribution given all of it.                               *)
(***************************************************************************)
EXTENDS Gaussian, Verdicts

NoBase == [u |-> <<>>, mean |-> <<>>, cov |-> <<>>]
NoData == [xs |-> <<>>, y |-> <<>>, noise |-> <<>>]
\* cov, mean: the model's current expressions; fcov, fmean: those at the time of the fit
\* unit: what values are measured in
Start == [unit |-> "1", cov |-> "none", mean |-> "none", fcov |-> "none", fmean |-> "none", base |-> NoBase, data |-> NoData]
DataOf(e) == [xs |-> e.xs, y |-> e.y, noise |-> e.noise]
Both(a, b) == [xs |-> a.xs \o b.xs, y |-> a.y \o b.y, noise |-> a.noise \o b.noise]
After(st, e) ==
  CASE e.op = "expr" -> [st EXCEPT !.cov = e.expr, !.unit = IF "unit" \in DOMAIN e THEN e.unit ELSE "1"]
    [] e.op = "mean_expr" -> [st EXCEPT !.mean = e.expr]
    [] e.op = "set_param" -> [st EXCEPT !.cov = WithParam(@, e.name, e.value), !.mean = WithParam(@, e.name, e.value)]
    [] e.op = "fit" -> [st EXCEPT !.base = NoBase, !.data = DataOf(e), !.fcov = st.cov, !.fmean = st.mean]
    [] e.op = "from_prediction" -> [st EXCEPT !.base = [u |-> e.u, mean |-> e.mean, cov |-> e.cov], !.data = NoData, !.fcov = st.cov, !.fmean = st.mean]
    [] e.op = "update" -> [st EXCEPT !.data = Both(@, DataOf(e))]
    [] OTHER -> st

\* covariance and mean of the process whose distribution at base.u was replaced:
\*   [gain] = K_uu^-1 (m - m_u),  [less] = K_uu^-1 (K_uu - P) K_uu^-1
Basis(st) ==
  IF st.base.u = <<>> THEN [gain |-> <<>>, less |-> <<>>]
  ELSE LET K == Gram(st.fcov, st.base.u)
           half == MatSolve(K, MatSub(K, st.base.cov))
       IN [gain |-> VecSolve(K, VecSub(st.base.mean, MeanVector(st.fmean, st.base.u))), less |-> Transpose(MatSolve(K, Transpose(half)))]
BasedCov(st, b, xs, ys) ==
  IF st.base.u = <<>> \/ xs = <<>> \/ ys = <<>> THEN CovMatrix(st.fcov, xs, ys)
  ELSE MatSub(CovMatrix(st.fcov, xs, ys), MatMul(MatMul(CovMatrix(st.fcov, xs, st.base.u), b.less), CovMatrix(st.fcov, st.base.u, ys)))
BasedMean(st, b, xs) ==
  IF st.base.u = <<>> \/ xs = <<>> THEN MeanVector(st.fmean, xs)
  ELSE VecAdd(MeanVector(st.fmean, xs), MatVec(CovMatrix(st.fcov, xs, st.base.u), b.gain))
\* the distribution at xs given base and data
Predicted(st, xs) ==
  LET b == Basis(st) d == st.data m == Measured(d.xs)
      g == Given(IF d.xs = <<>> THEN <<>> ELSE MatAdd(BasedCov(st, b, m, m), DiagMat(d.noise)), BasedCov(st, b, d.xs, xs),
                 BasedCov(st, b, xs, xs), VecSub(d.y, BasedMean(st, b, m)))
  IN [g EXCEPT !.mean = VecAdd(@, BasedMean(st, b, xs))]
\* weights of the training residuals in every prediction of a fit to data
Information(st) == VecSolve(TrainCov(st.fcov, st.data), Residual(st.fmean, st.data))

\* tolerances grow with the unit
Tol(st, power) == CASE power = -1 -> RDiv("1e-6", st.unit)
                    [] power = 1 -> RMul("1e-7", st.unit)
                    [] power = 2 -> RMul("1e-7", RSq(st.unit))
MeanNear(st, got, want) == VecNear(got, want, "1e-7", Tol(st, 1))
VarNear(st, got, want) == VecNear(got, want, "1e-7", Tol(st, 2))
CovNear(st, got, want) == MatNear(got, want, "1e-7", Tol(st, 2))

Verdict(st, e) ==
  CASE e.op \in {"expr", "mean_expr", "set_param", "update"} -> ""
    [] e.op = "fit" ->
         LET s2 == After(st, e) IN
         FirstOf(<<Chk(e.train = e.xs, "train features of a fit"),
                   Chk(e.xs = <<>> \/ VecNear(e.information, Information(s2), "1e-6", Tol(st, -1)), "information of a fit")>>)
    [] e.op = "from_prediction" -> Chk(e.train = e.u, "train features of a fit from a prediction")
    [] e.op = "same" -> Chk(e.equal, e.what)
    [] e.op = "predict" ->
         LET want == Predicted(st, e.xs) IN
         FirstOf(<<Chk(MeanNear(st, e.mean, want.mean), "predicted mean (" \o e.kind \o ")"),
                   Chk(MeanNear(st, e.marginal.mean, want.mean) /\ VarNear(st, e.marginal.var, DiagOf(want.cov)), "predicted marginal (" \o e.kind \o ")"),
                   Chk(MeanNear(st, e.joint.mean, want.mean) /\ CovNear(st, e.joint.cov, want.cov), "predicted joint (" \o e.kind \o ")")>>)
    [] e.op = "prior" -> LET want == Prior(st.cov, st.mean, e.xs) IN
                         Chk(MeanNear(st, e.out.mean, want.mean) /\ CovNear(st, e.out.cov, want.cov), "prior")
    [] e.op = "covariance" -> Chk(CovNear(st, e.out, Gram(st.cov, e.xs)), "covariance of features")
    [] e.op = "log_likelihood" ->
         LET d == DataOf(e) IN
         Chk(RNear(e.out, RAdd(e.prior, LogDensity(Residual(st.mean, d), TrainCov(st.cov, d))), "1e-8", "1e-7"), "log likelihood")
=============================================================================
