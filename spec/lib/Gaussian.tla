------------------------------- MODULE Gaussian -------------------------------
(***************************************************************************)
(* Conditioning of jointly Gaussian variables and the model a Gaussian     *)
(* process fit denotes.  Data is [xs |-> features, y |-> reals,            *)
(* noise |-> variances].  A process is a covariance and a mean expression. *)
(***************************************************************************)
EXTENDS Kernels

\* [mean, cov] of b given a = value, for cov(a) = K, cov(a, b) = C, cov(b) = P
Given(K, C, P, r) ==
  IF Len(r) = 0 THEN [mean |-> Zeros(Len(P)), cov |-> P]
  ELSE LET G == MatSolve(K, C) Gt == Transpose(G) IN
       [mean |-> MatVec(Gt, r), cov |-> MatSub(P, MatMul(Transpose(C), G))]

TrainCov(cov, data) == MatAdd(Gram(cov, Measured(data.xs)), DiagMat(data.noise))
Residual(mean, data) == VecSub(data.y, MeanVector(mean, Measured(data.xs)))
\* the library predicts from the plain training features: noise that is only in measurements is not predicted
Posterior(cov, mean, data, xs) ==
  LET d == Given(TrainCov(cov, data), CovMatrix(cov, data.xs, xs), Gram(cov, xs), Residual(mean, data))
  IN [d EXCEPT !.mean = VecAdd(d.mean, MeanVector(mean, xs))]
Prior(cov, mean, xs) == [mean |-> MeanVector(mean, Measured(xs)), cov |-> Gram(cov, Measured(xs))]
LogDensity(r, K) == \* log N(r; 0, K)
  LET q == IF Len(r) = 0 THEN "0" ELSE Dot(r, VecSolve(K, r))
  IN RMul("-0.5", RAdd(RAdd(q, LogDet(K)), RMul(Len(r), RLog(RMul(2, RPi)))))
JointNear(got, want, rtol, atol) == VecNear(got.mean, want.mean, rtol, atol) /\ MatNear(got.cov, want.cov, rtol, atol)
=============================================================================
