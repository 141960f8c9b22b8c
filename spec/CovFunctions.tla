----------------------------- MODULE CovFunctions -----------------------------
(***************************************************************************)
(* C12.  State: the current covariance expression and mean expression,     *)
(* with the current value of every parameter.  Writing a parameter is a    *)
(* transition; evaluating leaves the state alone and must return the value *)
(* the expression denotes in that state (lib/Kernels.tla).                 *)
(***************************************************************************)
EXTENDS Kernels, Verdicts

Start == [cov |-> "none", mean |-> "none"]

RECURSIVE UsesAngle(_)
UsesAngle(e) == CASE e.k \in {"sum", "prod"} -> UsesAngle(e.l) \/ UsesAngle(e.r)
                  [] e.k = "meas" -> UsesAngle(e.of)
                  [] OTHER -> "metric" \in DOMAIN e /\ e.metric = "angular"
\* acos near one only keeps half of the digits
Rel(e) == IF UsesAngle(e) THEN "1e-6" ELSE "1e-11"
\* the call trace: one row per node in prefix order, <<depth, operator, name, value>>
RECURSIVE TraceRows(_, _, _, _, _)
TraceRow(e, X, Y, depth, op) ==
  LET bx == IF X.t = "m" THEN X.of ELSE X  by == IF Y.t = "m" THEN Y.of ELSE Y
  IN <<<<depth, op, e.name, Applies(e, bx.t, by.t), IF Applies(e, bx.t, by.t) THEN Term(e, bx, by, X.t = "m", Y.t = "m") ELSE "0">>>>
TraceRows(e, X, Y, depth, op) ==
  TraceRow(e, X, Y, depth, op) \o
  (IF e.k \in {"sum", "prod"} THEN LET o == IF e.k = "sum" THEN "+" ELSE "*"
      IN TraceRows(e.l, X, Y, depth + 1, o) \o TraceRows(e.r, X, Y, depth + 1, o) ELSE <<>>)
RowOk(got, want) ==
  /\ got[1] = want[1] /\ got[2] = want[2] /\ got[3] = want[3]
  /\ IF want[4] THEN got[4] # "UNDEFINED" /\ RNear(got[4], want[5], "1e-5", "1e-6") ELSE got[4] = "UNDEFINED"

After(st, e) ==
  CASE e.op = "expr" -> [st EXCEPT !.cov = e.expr]
    [] e.op = "mean_expr" -> [st EXCEPT !.mean = e.expr]
    [] e.op = "set" -> [st EXCEPT !.cov = WithParam(st.cov, e.name, e.value)]
    [] e.op = "mean_set" -> [st EXCEPT !.mean = WithParam(st.mean, e.name, e.value)]
    [] OTHER -> st

MaxRatio == "1e7"
MinRatio == "1e-7"
\* growth of the standard deviation over a distance, for a unit prior
Growth(kind, d, ell, sigma) ==
  LET k0 == Radial(kind, 0, ell, sigma) kd == Radial(kind, d, ell, sigma)
  IN RSqrt(RSub(k0, RDiv(RSq(kd), k0)))

ParamsOk(expr, out) ==
  /\ {out[n][1] : n \in 1..Len(out)} = ParamNames(expr) /\ Len(out) = Cardinality(ParamNames(expr))
  /\ \A n \in 1..Len(out) : REq(out[n][2], ParamValue(expr, out[n][1]))

Verdict(st, e) ==
  CASE e.op \in {"expr", "mean_expr", "set", "mean_set"} -> ""
    [] e.op = "cov" -> Chk(CovIs(st.cov, e.out, e.x, e.y, Rel(st.cov)), "value of a covariance expression")
    [] e.op = "applies" -> Chk(e.out = Applies(st.cov, e.tx, e.ty), "pairs of types a covariance expression is defined for")
    [] e.op = "matrix" -> Chk(IF Len(e.ys) = 0 THEN TRUE ELSE CovMatrixIs(st.cov, e.out, e.xs, e.ys, Rel(st.cov)), "cross covariance matrix")
    [] e.op = "gram" -> FirstOf(<<Chk(CovMatrixIs(st.cov, e.out, e.xs, e.xs, Rel(st.cov)), "covariance matrix"),
                                  Chk(\A a, b \in 1..Len(e.out) : REq(e.out[a][b], e.out[b][a]), "covariance matrix is not symmetric")>>)
    [] e.op = "diag" -> Chk(CovDiagIs(st.cov, e.out, e.xs, Rel(st.cov)), "diagonal of a covariance matrix")
    [] e.op = "params" -> Chk(ParamsOk(st.cov, e.out), "parameters of a covariance expression")
    [] e.op = "mean_params" -> Chk(ParamsOk(st.mean, e.out), "parameters of a mean expression")
    [] e.op = "trace" -> LET want == TraceRows(st.cov, e.x, e.y, 0, "") IN
         Chk(Len(e.rows) = Len(want) /\ \A n \in 1..Len(want) : RowOk(e.rows[n], want[n]), "call trace")
    [] e.op = "name" -> Chk(e.out = st.cov.name, "name of a covariance expression")
    [] e.op = "mean" -> Chk(MeanIs(st.mean, e.out, e.x, "1e-12"), "value of a mean expression")
    [] e.op = "mean_vector" -> Chk(MeanVectorIs(st.mean, e.out, e.xs, "1e-12"), "mean vector")
    [] e.op = "add_to" -> Chk(VecNear(e.out, VecAdd(e.target, MeanVector(st.mean, e.xs)), "1e-12", "1e-10"), "adding the mean")
    [] e.op = "remove_from" -> Chk(VecNear(e.out, VecSub(e.target, MeanVector(st.mean, e.xs)), "1e-12", "1e-10"), "removing the mean")
    [] e.op = "distance" -> Chk(IF e.metric = "angular"
             THEN LET want == Distance("angular", e.x, e.y) off == RMin(RAbs(want), RSub("3.141592653589793", want))
                  IN RNear(e.out, want, "1e-12", RDiv("2e-15", RMax(off, "2e-8"))) \* acos near one and minus one
             ELSE RNear(e.out, Distance(e.metric, e.x, e.y), "1e-12", RMul("1e-14", IF e.metric = "radial" THEN RAdd(Norm(e.x.x), Norm(e.y.x)) ELSE "0")), "distance (" \o e.metric \o ")")
    [] e.op = "distance_matrix" -> Chk(Len(e.out) = Len(e.xs) /\ \A a, b \in 1..Len(e.xs) :
           RNear(e.out[a][b], Distance(e.metric, e.xs[a], e.xs[b]), "1e-12", "1e-12"), "distance matrix")
    [] e.op = "length_scale" -> \* the derived length scale gives the requested growth, or saturates
         LET ratio == RDiv(e.out, e.ref)
             ok == RLt(0, e.sigma) /\ RLt(0, e.inc) /\ RLt(e.inc, e.sigma)
         IN IF ~ok THEN Chk(RNear(ratio, IF RLeq(e.sigma, 0) \/ RLeq(e.inc, 0) THEN MaxRatio ELSE MinRatio, "1e-12", 0), "length scale for degenerate arguments (" \o e.kind \o ")")
            ELSE Chk(\/ RNear(Growth(e.kind, e.ref, e.out, e.sigma), e.inc, "1e-6", 0)
                     \/ RNear(ratio, MaxRatio, "1e-9", 0) /\ RLeq(RMul("0.999", e.inc), Growth(e.kind, e.ref, e.out, e.sigma))
                     \/ RNear(ratio, MinRatio, "1e-9", 0) /\ RLeq(Growth(e.kind, e.ref, e.out, e.sigma), RMul("1.001", e.inc)), "derived length scale (" \o e.kind \o ")")
    [] e.op = "growth" -> Chk(RNear(e.out, Growth(e.kind, e.d, e.ell, e.sigma), "1e-5", RMul("1e-7", e.sigma)), "process noise equivalent")
    [] e.op = "grid" -> \* state space representation: uniform grid from the least to the greatest element
         LET lo == e.lo hi == e.hi n == Len(e.out) IN
         Chk(/\ n >= 3 /\ RNear(e.out[1], lo, 0, 0) /\ RNear(e.out[n], hi, "1e-9", "1e-9")
             /\ \A a \in 1..n : RNear(e.out[a], RAdd(lo, RDiv(RMul(a - 1, RSub(hi, lo)), n - 1)), "1e-9", "1e-9")
             /\ RLeq(RMul(RSub(hi, lo), e.per), RMul(n, e.ell)) /\ (n > 3 => RLt(RMul(n - 1, e.ell), RMul(RSub(hi, lo), e.per))), "state space representation")
=============================================================================
