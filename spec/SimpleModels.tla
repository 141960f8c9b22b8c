---------------------------- MODULE SimpleModels ----------------------------
(***************************************************************************)
(* C21.  Least squares, linear regression, the null model, conditioning a  *)
(* given Gaussian on some of its own variables, and which prediction is    *)
(* used when a model implements only some kinds.                           *)
(* State: the latest fit.                                                  *)
(***************************************************************************)
EXTENDS Gaussian, FiniteSets, TLC, Verdicts

Start == [kind |-> "none"]
Tol == "1e-9"

\* ---------------------------------------------------------- least squares
Design(e) == CASE e.model = "least_squares" -> e.xs
               [] e.model = "linear" -> [i \in 1..Len(e.xs) |-> <<"1", e.xs[i]>>]
               [] e.model = "ridge" -> e.xs
AllSame(v) == \A i \in 1..Len(v) : REq(v[i], v[1])
MaxAbs(v) == IF v = <<>> THEN "0" ELSE LET F[i \in 1..Len(v)] == IF i = 1 THEN RAbs(v[1]) ELSE RMax(F[i - 1], RAbs(v[i])) IN F[Len(v)]
MaxAbsM(A) == MaxAbs([i \in 1..Len(A) |-> MaxAbs(A[i])])
\* a minimizer of the squared residual: nothing is left of the residual in the columns of A
Minimizes(A, y, c) ==
  LET At == Transpose(A) r == VecSub(y, MatVec(A, c))
      scale == RMul(RMul(Len(A), MaxAbsM(A)), RAdd(MaxAbs(y), RMin(RMul(MaxAbsM(A), MaxAbs(c)), RMul("1e4", MaxAbs(y))))) IN
  Len(c) = Cols(A) /\ \A n \in 1..Len(At) : RLeq(RAbs(Dot(At[n], r)), RMul("1e-10", RMax(1, scale)))
Normal(A, y) == VecSolve(MatMul(Transpose(A), A), MatVec(Transpose(A), y))
\* a model may bring its own solver: this one adds lambda to the normal matrix
Ridge(A, y, lambda) == VecSolve(MatAdd(MatMul(Transpose(A), A), MatScale(lambda, Identity(Cols(A)))), MatVec(Transpose(A), y))
FitVerdict(e) ==
  LET A == Design(e) IN
  IF e.stopped THEN Chk(~AllSame(e.noise), "a dataset with equal variances was refused")
  ELSE IF ~AllSame(e.noise) THEN "least squares ignored unequal variances"
  ELSE CASE e.model = "ridge" -> Chk(VecNear(e.coefs, Ridge(A, e.y, e.lambda), Tol, Tol), "the model's own solver was not used")
         [] OTHER -> FirstOf(<<Chk(Minimizes(A, e.y, e.coefs), "coefficients do not minimize the squared residual"),
                               Chk(e.independent => VecNear(MatVec(A, e.coefs), MatVec(A, Normal(A, e.y)), "0", RMul("1e-8", MaxAbs(e.y))), "the fitted values are not the closest ones"),
                               Chk(e.full => VecNear(e.coefs, Normal(A, e.y), "1e-8", "1e-8"), "coefficients are not the least squares solution"),
                               Chk((e.line # <<>>) => VecNear(e.coefs, e.line, "1e-8", "1e-8"), "collinear data does not give its line")>>)

\* ------------------------------------------------- conditioning a Gaussian
AtIdx(is) == [n \in 1..Len(is) |-> is[n] + 1]          \* logged from zero
PriorAt(st, is) == [mean |-> SubVec(st.mean, AtIdx(is)), cov |-> SubMat(st.cov, AtIdx(is), AtIdx(is))]
CondAt(st, is) ==
  LET t == AtIdx(st.train) p == AtIdx(is) prior == PriorAt(st, is)
      K == MatAdd(SubMat(st.cov, t, t), DiagMat(SubVec(st.noise, t)))
      d == Given(K, SubMat(st.cov, t, p), prior.cov, VecSub(SubVec(st.y, t), SubVec(st.mean, t)))
  IN [d EXCEPT !.mean = VecAdd(d.mean, prior.mean)]
PredictionVerdict(want, e, rtol, atol) ==
  FirstOf(<<Chk(VecNear(e.mean, want.mean, rtol, atol), "mean"),
            Chk(VecNear(e.marginal.mean, want.mean, rtol, atol), "marginal mean"),
            Chk(VecNear(e.marginal.var, DiagOf(want.cov), rtol, atol), "marginal variance"),
            Chk(JointNear(e.joint, want, rtol, atol), "joint")>>)

\* ---------------------------------------------- kinds of prediction a model has
\* own[kind] are the values the model's own implementations give (absent kinds are not in has)
MeanOf(own, has) == IF "mean" \in has THEN own.mean ELSE IF "marginal" \in has THEN own.marginal.mean ELSE own.joint.mean
MarginalOf(own, has) == IF "marginal" \in has THEN own.marginal ELSE [mean |-> own.joint.mean, var |-> DiagOf(own.joint.cov)]
Abs(v) == [i \in 1..Len(v) |-> RAbs(v[i])]
KindsVerdict(e) ==
  LET has == RangeOf(e.has) IN
  FirstOf(<<Chk(e.mean = MeanOf(e.own, has), "mean is not the model's most direct one"),
            Chk(has = {"mean"} \/ e.marginal = MarginalOf(e.own, has), "marginal is not the model's most direct one"),
            Chk("joint" \notin has \/ e.joint = e.own.joint, "joint is not the model's own")>>)

Verdict(st, e) ==
  CASE e.op = "fit_coefs" -> FitVerdict(e)
    [] e.op = "predict_coefs" -> LET A == Design([model |-> st.model, xs |-> e.xs]) want == MatVec(A, st.coefs) IN
                               Chk(Len(e.mean) = Len(want) /\ \A i \in 1..Len(want) :
                                     RNear(e.mean[i], want[i], "1e-14", RMul("1e-13", Dot(Abs(A[i]), Abs(st.coefs)))), "prediction is not the design times the coefficients")
    [] e.op = "null" -> PredictionVerdict([mean |-> Zeros(e.n), cov |-> MatScale("10000", Identity(e.n))], e, "0", "0")
    [] e.op = "gaussian" -> ""
    [] e.op = "condition" -> ""
    [] e.op = "prior" -> FirstOf(<<Chk(VecNear(e.mean, PriorAt(st, e.idx).mean, "0", "0") /\ MatNear(e.cov, PriorAt(st, e.idx).cov, "0", "0"), "prior of a subset"),
                                   Chk(VecNear(e.y, SubVec(st.y, AtIdx(e.idx)), "0", "0") /\ VecNear(e.noise, SubVec(st.noise, AtIdx(e.idx)), "0", "0"), "truth of a subset")>>)
    [] e.op = "conditional" -> PredictionVerdict(CondAt(st, e.idx), e, "1e-8", "1e-8")
    [] e.op = "kinds" -> KindsVerdict(e)
    [] OTHER -> "unknown event"
After(st, e) ==
  CASE e.op = "fit_coefs" -> [kind |-> "coefs", model |-> e.model, coefs |-> e.coefs]
    [] e.op = "gaussian" -> [kind |-> "gaussian", mean |-> e.mean, cov |-> e.cov, y |-> e.y, noise |-> e.noise, train |-> <<>>]
    [] e.op = "condition" -> [st EXCEPT !.train = e.idx]
    [] OTHER -> st
=============================================================================
