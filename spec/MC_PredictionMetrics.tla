------------------------- MODULE MC_PredictionMetrics -------------------------
(***************************************************************************)
(* Predictions and truths grow by one component at a time.  The scores are *)
(* checked against one another: the chain rule of likelihoods, the closed  *)
(* form of scores in one dimension against their definition as expected    *)
(* distances, matrix roots against their squares, and what makes the       *)
(* distances distances.                                                    *)
(***************************************************************************)
EXTENDS PredictionMetrics, Json, IOUtils
CONSTANTS MaxSize
VARIABLES mean, root, y    \* the covariance is root * root^T, root lower triangular
vars == <<mean, root, y>>
Values == {"-1", "0.5"}
Diagonals == {"1", "1.5"}
Init == mean = <<>> /\ root = <<>> /\ y = <<>>
Lower(n) == [1..n -> {"-0.5", "1"}]
Next ==
  /\ Len(mean) < MaxSize
  /\ \E m \in Values, t \in {"0", "2"}, c \in Lower(Len(mean)), d \in Diagonals :
       /\ mean' = Append(mean, m) /\ y' = Append(y, t)
       /\ root' = Append([i \in 1..Len(root) |-> Append(root[i], "0")], Append(c, d))
Covariance == MatMul(root, Transpose(root))
n == Len(mean)
Ones(k) == [i \in 1..k |-> "1"]
All(k) == [i \in 1..k |-> Ones(k)]
E(order) == [mean |-> mean, cov |-> Covariance, y |-> y, noise |-> Zeros(n), weights |-> IF order = 0 THEN Ones(n) ELSE All(n), order |-> order]
Near(a, b) == RNear(a, b, "1e-20", "1e-20")
AllButLast(v) == SubSeq(v, 1, Len(v) - 1)
Idx(k) == [i \in 1..k |-> i]
\* the last component given the others
ChainRule == n > 1 =>
  LET K == Covariance d == VecSub(y, mean) A == SubMat(K, Idx(n - 1), Idx(n - 1)) C == SubMat(K, Idx(n - 1), <<n>>)
      last == Given(A, C, SubMat(K, <<n>>, <<n>>), AllButLast(d))
  IN Near(Nll(d, K), RAdd(Nll(AllButLast(d), A), Nll(<<RSub(d[n], last.mean[1])>>, last.cov)))
\* the mean of the negative log density is the entropy: the mean squared distance is the dimension
EntropyIsMeanNll == n > 0 => Near(Entropy(Covariance), RAdd(Nll(Zeros(n), Covariance), RDiv(n, 2)))
EntropyOfProduct == n > 0 => LET D == Diagonal(Covariance) IN
  /\ Near(Entropy(D), RSum([i \in 1..n |-> Entropy(<<<<D[i][i]>>>>)]))
  /\ RLeq(Entropy(Covariance), RAdd(Entropy(D), "1e-25"))  \* dependence lowers it
Roots == n > 0 => LET S == MatSqrt(Covariance) IN MatNear(MatMul(S, S), Covariance, "1e-22", "1e-22") /\ MatNear(S, Transpose(S), "1e-22", "1e-22")
Other == [mean |-> y, cov |-> MatAdd(Identity(n), DiagMat(Ones(n)))]
Third == [mean |-> Zeros(n), cov |-> MatAdd(Covariance, Identity(n))]
Here == [mean |-> mean, cov |-> Covariance]
Metric == n > 0 =>
  /\ Near(Wasserstein2(Here, Here), 0)
  /\ Near(Wasserstein2(Here, Other), Wasserstein2(Other, Here)) /\ RLt(0, Wasserstein2(Here, Other))
  /\ RLeq(RSqrt(Wasserstein2(Here, Other)), RAdd(RSqrt(Wasserstein2(Here, Third)), RAdd(RSqrt(Wasserstein2(Third, Other)), "1e-15")))
  /\ n = 2 => LET S == MatSqrt(Other.cov) IN Near(RootTrace(Covariance, Other.cov), TraceOf(MatSqrt(MatMul(S, MatMul(Covariance, S)))))
\* one component: the energy score is the crps; its terms are mean absolute values
Rough(a, b) == RNear(a, b, "1e-6", "1e-6")
OneDimension == n = 1 =>
  /\ Rough(Energy(E(0)), Crps(mean[1], root[1][1], y[1]))
  /\ Rough(MeanNorm(VecSub(mean, y), Covariance), MeanAbs(RSub(mean[1], y[1]), Covariance[1][1]))
  /\ Near(Variogram(E(1)), 0)
EnergyPositive == n > 0 => RLt(0, Energy(E(0)))
\* shifting everything changes no score, scaling scales it
Shifted(e) == [e EXCEPT !.mean = [i \in 1..n |-> RAdd(e.mean[i], 3)], !.y = [i \in 1..n |-> RAdd(e.y[i], 3)]]
Scaled(e) == [e EXCEPT !.mean = VecScale(2, e.mean), !.y = VecScale(2, e.y), !.cov = MatScale(4, e.cov)]
Equivariant == n > 0 =>
  /\ Near(Variogram(Shifted(E(1))), Variogram(E(1))) /\ Near(Variogram(Shifted(E(2))), Variogram(E(2)))
  /\ Near(Variogram(Scaled(E(1))), RMul(4, Variogram(E(1)))) /\ Near(Variogram(Scaled(E(2))), RMul(16, Variogram(E(2))))
  /\ Near(Energy(Scaled(E(0))), RMul(2, Energy(E(0))))
\* no variance at all: plain distances
Sure == n > 0 => LET e == [E(0) EXCEPT !.cov = ZeroMat(n, n)] d == VecSub(mean, y) IN
  /\ RNear(Energy(e), RSqrt(Dot(d, d)), "1e-6", "1e-6")
  /\ Near(Variogram([E(1) EXCEPT !.cov = ZeroMat(n, n)]),
          RSum(FlattenSeq([i \in 1..n |-> [k \in 1..n - i |->
            RSq(RSub(RAbs(RSub(y[i], y[i + k])), RAbs(RSub(mean[i], mean[i + k]))))]])))
ASSUME Near(Erf(1), "0.84270079294971486934122063508260925929606699796630") /\ Near(Erf("-0.5"), RNeg(Erf("0.5")))
ASSUME Near(Spread(<<"1", "2", "4">>), RSqrt(RDiv(7, 3)))
Matrices == {<<<<"1", "0">>, <<"0", "1">>>>, <<<<"2", "1">>, <<"1", "2">>>>, <<<<"1", "-0.5">>, <<"-0.5", "0.5">>>>}
Pairs == {<<a, b>> : a \in {"0", "1", "-2"}, b \in {"0", "0.5"}}
Inputs == {[mean |-> m, cov |-> c, y |-> t, noise |-> v] : m \in Pairs, c \in Matrices, t \in Pairs, v \in {<<"0", "0">>, <<"0.25", "1">>}}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))
=============================================================================
