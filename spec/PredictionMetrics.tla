-------------------------- MODULE PredictionMetrics --------------------------
(***************************************************************************)
(* C26.  How predictions are scored against the truth.  A prediction is a  *)
(* mean with a covariance, a truth is a vector with measurement variances  *)
(* (possibly zero).  Every score is defined here by what it means; the     *)
(* energy score, E|X - y| - E|X - X'|/2, which the library estimates by    *)
(* sampling, is computed from                                              *)
(*   E sqrt(Q) = 1/sqrt(pi) * integral (1 - E exp(-u^2 Q)) / u^2 du        *)
(* whose integrand is known in closed form for a Gaussian X.               *)
(***************************************************************************)
EXTENDS Gaussian, Verdicts, Gamma, FiniteSets, SequencesExt

Start == [n |-> 0]

\* ----------------------------------------------------- errors of the mean
Average(v) == RDiv(RSum(v), Len(v))
Rmse(p, y) == LET d == VecSub(p, y) IN RSqrt(RDiv(Dot(d, d), Len(d)))
Spread(v) == IF Len(v) = 1 THEN "0"
             ELSE LET m == Average(v) d == [i \in 1..Len(v) |-> RSub(v[i], m)] IN RSqrt(RDiv(Dot(d, d), Len(v) - 1))
SpreadOk(got, v, scale) == IF v = <<>> THEN RIsNan(got) ELSE RNear(got, Spread(v), "1e-10", RMul("1e-13", scale))
Largest(v) == FoldLeft(LAMBDA m, x : RMax(m, RAbs(x)), "1", v)

\* ------------------------------------------------------------ likelihoods
\* the covariance the truth has under the prediction
Total(e) == MatAdd(e.cov, DiagMat(e.noise))
Deviation(e) == VecSub(e.mean, e.y)
Nll(d, K) == RNeg(LogDensity(d, K))
Diagonal(K) == DiagMat(DiagOf(K))
Entropy(K) == RMul("0.5", RAdd(RMul(Rows(K), RAdd(1, RLog(RMul(2, RPi)))), LogDet(K)))
Mahalanobis(d, K) == IF d = <<>> THEN "0" ELSE Dot(d, VecSolve(K, d))
LikelihoodVerdict(e) ==
  LET d == Deviation(e) K == Total(e) near(got, want) == RNear(got, want, "1e-9", "1e-9") IN
  FirstOf(<<Chk(near(e.joint, Nll(d, K)), "likelihood: of a joint prediction"),
            Chk(near(e.marginal, Nll(d, Diagonal(K))), "likelihood: of a marginal prediction"),
            Chk(near(e.plain, Nll(d, e.cov)), "likelihood: of a deviation with a covariance"),
            Chk(near(e.decomposed, Nll(d, e.cov)), "likelihood: of a deviation with a decomposition"),
            Chk(near(e.diagonal, Nll(d, Diagonal(e.cov))), "likelihood: of a deviation with variances"),
            Chk(Len(e.scalars) = Len(d) /\ \A i \in 1..Len(d) : near(e.scalars[i], Nll(<<d[i]>>, <<<<e.cov[i][i]>>>>)), "likelihood: of a scalar deviation"),
            Chk(near(e.entropy, Entropy(e.cov)) /\ near(e.entropy_of_decomposition, Entropy(e.cov)), "entropy: value"),
            Chk(near(e.log_det, LogDet(e.cov)), "entropy: log determinant"),
            Chk(RLeq(0, e.cdf) /\ RLeq(e.cdf, 1) /\ RNear(e.cdf, P(RDiv(Len(d), 2), RDiv(Mahalanobis(d, K), 2)), "1e-6", "6e-7"), "chi-squared: of a prediction")>>)
ErrorVerdict(e) ==
  LET d == VecSub(e.mean, e.y) s == RMul(RMax(Largest(e.mean), Largest(e.y)), 2) IN
  FirstOf(<<Chk(RNear(e.rmse, Rmse(e.mean, e.y), "1e-11", RMul("1e-14", s)), "errors: root mean square"),
            Chk(e.rmse_marginal = e.rmse /\ e.rmse_object = e.rmse, "errors: root mean square depends on the form"),
            Chk(SpreadOk(e.spread, d, s), "errors: standard deviation"),
            Chk(RSame(e.spread_marginal, e.spread) /\ RSame(e.spread_object, e.spread), "errors: standard deviation depends on the form"),
            Chk(SpreadOk(e.spread_of_truth, e.y, s), "errors: standard deviation of values")>>)
\* metrics of a prediction object use its mean, marginal or joint
ObjectVerdict(e) ==
  LET d == Deviation(e) K == Total(e) near(got, want) == RNear(got, want, "1e-9", "1e-9") IN
  FirstOf(<<Chk(near(e.rmse, Rmse(e.mean, e.y)), "prediction object: root mean square"),
            Chk(SpreadOk(e.spread, d, "1e3"), "prediction object: standard deviation"),
            Chk(near(e.joint, Nll(d, K)), "prediction object: likelihood"),
            Chk(near(e.marginal, Nll(d, Diagonal(K))), "prediction object: marginal likelihood"),
            Chk(RNear(e.cdf, P(RDiv(Len(d), 2), RDiv(Mahalanobis(d, K), 2)), "1e-6", "6e-7"), "prediction object: chi-squared")>>)

\* ------------------------------------------------------------- Wasserstein
\* Denman and Beavers' iteration: Y -> A^(1/2), Z -> A^(-1/2), for A positive definite
RECURSIVE SqrtFrom(_, _, _)
SqrtFrom(Y, Z, n) ==
  IF n = 0 THEN Y
  ELSE LET Yn == MatScale("0.5", MatAdd(Y, Inverse(Z))) Zn == MatScale("0.5", MatAdd(Z, Inverse(Y))) IN
       IF MatNear(Yn, Y, "1e-25", "0") THEN Yn ELSE SqrtFrom(Yn, Zn, n - 1)
TraceOf(A) == RSum(DiagOf(A))
MatSqrt(A) == LET t == TraceOf(A) IN MatScale(RSqrt(t), SqrtFrom(MatScale(RDiv(1, t), A), Identity(Rows(A)), 60))
RankOne(B) == \A i, k, a, b \in 1..Rows(B) : REq(RMul(B[i][a], B[k][b]), RMul(B[i][b], B[k][a]))
\* trace of the root of (A^1/2 B A^1/2): closed form in up to two dimensions or for rank one, even if singular
RootTrace(A, B) ==
  CASE Rows(A) = 0 -> "0"
    [] Rows(A) = 1 -> RSqrt(RMul(A[1][1], B[1][1]))
    [] Rows(A) = 2 -> RSqrt(RMax(0, RAdd(TraceOf(MatMul(A, B)), RMul(2, RSqrt(RMax(0, RMul(Det(A), Det(B))))))))
    [] RankOne(A) \/ RankOne(B) -> RSqrt(RMax(0, TraceOf(MatMul(A, B))))
    [] OTHER -> LET S == MatSqrt(B) IN TraceOf(MatSqrt(MatMul(S, MatMul(A, S))))
Wasserstein2(a, b) ==
  LET d == VecSub(a.mean, b.mean) IN
  RAdd(Dot(d, d), RSub(RAdd(TraceOf(a.cov), TraceOf(b.cov)), RMul(2, RootTrace(a.cov, b.cov))))
Size(a) == RAdd(Dot(a.mean, a.mean), RSum([i \in 1..Len(a.cov) |-> RAbs(a.cov[i][i])]))
WassersteinVerdict(e) ==
  Chk(RNear(e.out, Wasserstein2(e.a, e.b), "1e-7", RMul("3e-7", RAdd(Size(e.a), Size(e.b)))), "wasserstein: value")

\* ----------------------------------------------------------------- scores
Crps(mu, sigma, y) ==
  IF RLeq(sigma, 0) THEN RAbs(RSub(y, mu))
  ELSE LET z == RDiv(RSub(y, mu), sigma) IN
       RMul(sigma, RSub(RAdd(RMul(z, Erf(RDiv(z, RSqrt(2)))),
                             RMul(2, RDiv(RExp(RMul("-0.5", RSq(z))), RSqrt(RMul(2, RPi))))), RDiv(1, RSqrt(RPi))))
Finite3(e) == RIsFinite(e.mu) /\ RIsFinite(e.sigma) /\ RIsFinite(e.y)
CrpsVerdict(e) ==
  Chk(IF Finite3(e) THEN RNear(e.out, Crps(e.mu, e.sigma, e.y), "1e-12", RMul("1e-14", RMax("0", e.sigma)))
      ELSE RIsNan(e.out), "crps: value")

\* expected |X| for X ~ N(mu, v), and expected X^2
MeanAbs(mu, v) ==
  IF RLeq(v, 0) THEN RAbs(mu)
  ELSE LET m == RAbs(mu) s == RSqrt(v) IN
       RAdd(RMul(s, RMul(RSqrt(RDiv(2, RPi)), RExp(RDiv(RSq(m), RMul(-2, v))))), RMul(m, Erf(RDiv(m, RSqrt(RMul(2, v))))))
Moment(order, mu, v) == IF order = 2 THEN RAdd(RSq(mu), RMax("0", v)) ELSE MeanAbs(mu, v)
\* every pair of components counts once, with the weight of the lower and the higher position
PairTerm(e, i, j, K) ==
  LET v == RSub(RAdd(K[i][i], K[j][j]), RMul(2, K[i][j]))
      gap == RAbs(RSub(e.y[i], e.y[j]))
      d == RSub(IF e.order = 2 THEN RSq(gap) ELSE gap, Moment(e.order, RSub(e.mean[j], e.mean[i]), v))
  IN RMul(e.weights[i][j], RSq(d))
Variogram(e) ==
  LET K == Total(e) IN
  RSum(FlattenSeq([i \in 1..Len(e.y) |-> [k \in 1..Len(e.y) - i |-> PairTerm(e, i, i + k, K)]]))
\* size of what cancels in the differences
PairSize(e, i, j, K) ==
  LET m == RAdd(RAdd(RAbs(RSub(e.mean[i], e.mean[j])), RAbs(RSub(e.y[i], e.y[j]))), RSqrt(RAdd(K[i][i], K[j][j])))
      s == IF e.order = 2 THEN RSq(m) ELSE m
  IN RMul(RAbs(e.weights[i][j]), RSq(s))
VariogramSize(e) ==
  LET K == Total(e) IN RSum(FlattenSeq([i \in 1..Len(e.y) |-> [k \in 1..Len(e.y) - i |-> PairSize(e, i, i + k, K)]]))
VariogramVerdict(e) ==
  Chk(RLeq(0, e.out) /\ RNear(e.out, Variogram(e), "1e-11", RMul("1e-12", VariogramSize(e))), "variogram score: value")

\* E |X| for X ~ N(d, K): trapezoidal rule in log u, and the tails in closed form
Laplace(d, K, t) == \* E exp(-t |X|^2)
  LET M == MatAdd(Identity(Rows(K)), MatScale(RMul(2, t), K)) IN
  RDiv(RExp(RNeg(RMul(t, Dot(d, VecSolve(M, d))))), RSqrt(Det(M)))
Square(d, K) == RAdd(Dot(d, d), TraceOf(K))  \* E |X|^2
MeanNorm(d, K) ==
  IF REq(Square(d, K), 0) THEN "0"
  ELSE LET scale == RSqrt(Square(d, K))
           dn == VecScale(RDiv(1, scale), d) Kn == MatScale(RDiv(1, RSq(scale)), K)
           h == "0.25" steps == 28
           at(i) == LET u == RExp(RMul(h, i)) IN RDiv(RSub(1, Laplace(dn, Kn, RSq(u))), u)
           body == RMul(h, RSum([i \in 1..2 * steps + 1 |-> at(i - 1 - steps)]))
           \* the tails of the sum: E|X|^2 u below (u^2 Q is small), 1 / u above
           q == RExp(RNeg(h)) top == RExp(RMul(h, steps + 1)) low == RExp(RMul(RNeg(h), steps + 1))
           tails == RMul(h, RDiv(RAdd(low, RDiv(1, top)), RSub(1, q)))
       IN RMul(scale, RDiv(RAdd(body, tails), RSqrt(RPi)))
\* components scaled by the roots of the weights
Root(w) == [i \in 1..Len(w) |-> RSqrt(w[i])]
Energy(e) ==
  LET s == Root(e.weights) K == [i \in 1..Len(s) |-> [j \in 1..Len(s) |-> RMul(RMul(s[i], s[j]), Total(e)[i][j])]]
      d == [i \in 1..Len(s) |-> RMul(s[i], RSub(e.mean[i], e.y[i]))]
  IN RSub(MeanNorm(d, K), RMul("0.5", MeanNorm(Zeros(Len(s)), MatScale(2, K))))
\* norms vary by at most the largest standard deviation of any direction
EnergyError(e) ==
  LET v == RSum([i \in 1..Len(e.y) |-> RMul(e.weights[i], Total(e)[i][i])]) k == e.samples \div 2 + 1 IN
  RMul(RSqrt(v), RDiv(6, RSqrt(k)))
EnergyVerdict(e) ==
  FirstOf(<<Chk(RLeq(0, e.out), "energy score: negative"),
            Chk(RNear(e.out, Energy(e), "5e-3", RAdd(EnergyError(e), RMul("1e-9", Largest(e.y)))), "energy score: value"),
            Chk(e.again = e.out, "energy score: not repeatable")>>)

Verdict(st, e) ==
  CASE e.op = "errors" -> ErrorVerdict(e)
    [] e.op = "likelihood" -> LikelihoodVerdict(e)
    [] e.op = "object" -> ObjectVerdict(e)
    [] e.op = "wasserstein" -> WassersteinVerdict(e)
    [] e.op = "crps" -> CrpsVerdict(e)
    [] e.op = "variogram" -> VariogramVerdict(e)
    [] e.op = "energy" -> EnergyVerdict(e)
    [] e.op = "refused" -> Chk(e.stopped = e.invalid, "scores: invalid arguments")
After(st, e) == st
=============================================================================
