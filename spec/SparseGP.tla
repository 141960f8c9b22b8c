------------------------------- MODULE SparseGP -------------------------------
(***************************************************************************)
(* C22.  A sparse Gaussian process assumes that groups of measurements are *)
(* independent of each other given the values at inducing points u.  So    *)
(* two measurements of different groups have the covariance they share     *)
(* through u and those of one group their exact covariance:                *)
(*   Q(x, y) = cov(x, u) cov(u, u)^-1 cov(u, y)                            *)
(* A fit is a Gaussian distribution of the values at u (their prior, or    *)
(* what the fit was based on) and the groups measured since.               *)
(* Every prediction is the exact conditional distribution under that       *)
(* assumption.  Nuggets are added to cov(u, u) and to the noise.           *)
(***************************************************************************)
EXTENDS Gaussian, Verdicts

NoData == [xs |-> <<>>, y |-> <<>>, noise |-> <<>>, group |-> <<>>]
NoFit == [cov |-> "none", mean |-> "none", inner |-> "0", outer |-> "0", u |-> <<>>, based |-> FALSE,
          v0 |-> <<>>, S0 |-> <<>>, data |-> NoData, batches |-> 0]
\* inner: nugget of cov(u, u); outer: nugget of measurements
Start == [cov |-> "none", mean |-> "none", inner |-> "1e-8", outer |-> "1e-8", fit |-> NoFit]

\* groups of different batches are different
Batch(e, k) == [xs |-> e.xs, y |-> e.y, noise |-> e.noise, group |-> [i \in 1..Len(e.group) |-> <<k, e.group[i]>>]]
Both(a, b) == [xs |-> a.xs \o b.xs, y |-> a.y \o b.y, noise |-> a.noise \o b.noise, group |-> a.group \o b.group]

Kuu(f) == MatAdd(Gram(f.cov, f.u), MatScale(f.inner, Identity(Len(f.u))))
Kxu(f, xs) == CovMatrix(f.cov, xs, f.u)
Kux(f, xs) == CovMatrix(f.cov, f.u, xs)
\* what of cov(xs, xs) is explained by u; after re-basing predictions need no nugget
Explained(f, xs, K) == MatMul(Transpose(Kux(f, xs)), MatSolve(K, Kux(f, xs)))
KuuPredict(f) == IF f.based THEN Gram(f.cov, f.u) ELSE Kuu(f)
\* distribution of the measurements: weights w = cov(u, u)^-1 value(u) have mean v0 and covariance S0
Unexplained(f, d) ==
  LET m == Measured(d.xs) A == MatSub(Gram(f.cov, m), Explained(f, m, Kuu(f))) n == Len(m) IN
  [i \in 1..n |-> [k \in 1..n |-> IF d.group[i] # d.group[k] THEN "0"
                                  ELSE IF i = k THEN RAdd(A[i][k], RAdd(d.noise[i], f.outer)) ELSE A[i][k]]]
DataCov(f, d) == LET m == Measured(d.xs) IN MatAdd(Unexplained(f, d), MatMul(Transpose(Kux(f, m)), MatMul(f.S0, Kux(f, m))))
ThroughWeights(f, xs) == MatVec(Transpose(Kux(f, xs)), f.v0)
DataMean(f, d) == VecAdd(MeanVector(f.mean, Measured(d.xs)), ThroughWeights(f, Measured(d.xs)))
Predicted(f, xs) ==
  IF xs = <<>> THEN [mean |-> <<>>, cov |-> <<>>]
  ELSE
  LET P == MatAdd(MatSub(Gram(f.cov, xs), Explained(f, xs, KuuPredict(f))), MatMul(Transpose(Kux(f, xs)), MatMul(f.S0, Kux(f, xs))))
      prior == VecAdd(MeanVector(f.mean, xs), ThroughWeights(f, xs))
      d == f.data
  IN IF d.xs = <<>> THEN [mean |-> prior, cov |-> P]
     ELSE LET g == Given(DataCov(f, d), MatMul(Transpose(Kux(f, Measured(d.xs))), MatMul(f.S0, Kux(f, xs))), P, VecSub(d.y, DataMean(f, d)))
          IN [g EXCEPT !.mean = VecAdd(@, prior)]

Unfitted(st, u) == [NoFit EXCEPT !.cov = st.cov, !.mean = st.mean, !.inner = st.inner, !.outer = st.outer, !.u = u]
Fitted(st, e) ==
  LET f == Unfitted(st, e.u) IN
  [f EXCEPT !.v0 = Zeros(Len(e.u)), !.S0 = MatSolve(Kuu(f), Identity(Len(e.u))), !.data = Batch(e, 0)]
\* a fit to a distribution d of the values at u
BasedOn(st, u, d) ==
  LET f == Unfitted(st, u) K == Gram(f.cov, u) half == MatSolve(K, d.cov) IN
  [f EXCEPT !.based = TRUE, !.v0 = VecSolve(K, VecSub(d.mean, MeanVector(f.mean, u))), !.S0 = Transpose(MatSolve(K, Transpose(half)))]
After(st, e) ==
  CASE e.op = "expr" -> [st EXCEPT !.cov = e.expr]
    [] e.op = "mean_expr" -> [st EXCEPT !.mean = e.expr]
    [] e.op = "nuggets" -> [st EXCEPT !.inner = e.inner, !.outer = e.outer]
    [] e.op = "set_param" -> [st EXCEPT !.cov = WithParam(@, e.name, e.value), !.mean = WithParam(@, e.name, e.value)]
    [] e.op = "fit" -> [st EXCEPT !.fit = Fitted(st, e)]
    [] e.op = "update" -> [st EXCEPT !.fit.data = Both(@, Batch(e, st.fit.batches + 1)), !.fit.batches = @ + 1]
    [] e.op = "from_prediction" -> [st EXCEPT !.fit = BasedOn(st, e.u, [mean |-> e.mean, cov |-> e.cov])]
    [] e.op = "rebase" -> [st EXCEPT !.fit = BasedOn(st, e.u, Predicted(st.fit, e.u))]
    [] OTHER -> st

Uniform(xs, n) ==
  LET at == [i \in 1..Len(xs) |-> xs[i].x]
      lo == CHOOSE a \in {at[i] : i \in 1..Len(at)} : \A i \in 1..Len(at) : RLeq(a, at[i])
      hi == CHOOSE a \in {at[i] : i \in 1..Len(at)} : \A i \in 1..Len(at) : RLeq(at[i], a)
  IN [i \in 1..n |-> IF i = 1 THEN lo ELSE RAdd(lo, RDiv(RMul(i - 1, RSub(hi, lo)), n - 1))]
InducingVerdict(e) ==
  CASE e.strategy.kind = "given" -> Chk(e.u = e.strategy.u, "inducing points of the strategy")
    [] e.strategy.kind = "uniform" -> Chk(VecNear([i \in 1..Len(e.u) |-> e.u[i].x], Uniform(e.xs, e.strategy.n), "1e-12", "1e-12"), "uniformly spaced inducing points")
Tol == "1e-6"
Verdict(st, e) ==
  CASE e.op \in {"expr", "mean_expr", "set_param", "nuggets", "update", "from_prediction", "rebase"} -> ""
    [] e.op = "fit" -> InducingVerdict(e)
    [] e.op = "predict" ->
         LET want == Predicted(st.fit, e.xs) IN
         FirstOf(<<Chk(VecNear(e.mean, want.mean, Tol, Tol), "predicted mean (" \o e.kind \o ")"),
                   Chk(VecNear(e.marginal.mean, want.mean, Tol, Tol) /\ VecNear(e.marginal.var, DiagOf(want.cov), Tol, Tol), "predicted marginal (" \o e.kind \o ")"),
                   Chk(JointNear(e.joint, want, Tol, Tol), "predicted joint (" \o e.kind \o ")")>>)
    [] e.op = "log_likelihood" ->
         LET f == Fitted(st, e) IN
         FirstOf(<<InducingVerdict(e),
                   Chk(RNear(e.out, RAdd(e.prior, LogDensity(VecSub(e.y, DataMean(f, f.data)), DataCov(f, f.data))), "1e-7", "1e-6"), "log likelihood")>>)
    [] e.op = "exact" -> \* inducing points everywhere: the exact process
         LET want == Posterior(st.cov, st.mean, [xs |-> e.xs, y |-> e.y, noise |-> e.noise], e.at) IN
         Chk(JointNear(e.joint, want, "1e-5", "1e-5"), "inducing points at the data do not give the exact process")
    [] e.op = "same" -> Chk(e.equal, e.what)
    [] OTHER -> "unknown event"
=============================================================================
