-------------------------------- MODULE Tuning --------------------------------
(***************************************************************************)
(* C24.  Tuning searches for parameters with a small objective.  A tuner   *)
(* is a history of evaluations which starts at the initial parameters and  *)
(* ends with a result.  The parameters are a sequence of                   *)
(*   [n |-> name, v |-> value, lo, hi, log, fixed]                         *)
(* and an evaluation is a sequence of <<name, value>> with its objective.  *)
(* The greedy tuner moves one parameter at a time: a batch of proposals    *)
(* around the best parameters so far, possibly evaluated concurrently.     *)
(* Gradients are finite differences which stay within the bounds.          *)
(***************************************************************************)
EXTENDS Real, LinAlg, Verdicts, Sequences, Integers, FiniteSets, TLC

Start == [method |-> "none"]

Low(p) == IF p.lo = "-inf" THEN "-1e8" ELSE p.lo
High(p) == IF p.hi = "inf" THEN "1e8" ELSE p.hi
Inside(p, v) == IF p.fixed THEN v = p.v ELSE RIsFinite(v) /\ RLeq(p.lo, v) /\ RLeq(v, p.hi)
Allowed(ps, e) == Len(e) = Len(ps) /\ \A i \in 1..Len(ps) : e[i][1] = ps[i].n /\ Inside(ps[i], e[i][2])
Close(a, b) == RNear(a, b, "1e-12", "1e-300")
ValuesOf(ps) == [i \in 1..Len(ps) |-> <<ps[i].n, ps[i].v>>]
SameAs(a, b) == \A i \in 1..Len(a) : Close(a[i][2], b[i][2])
SameBut(a, b, k) == \A i \in 1..Len(a) : i = k \/ Close(a[i][2], b[i][2])
\* values that are not a number are as bad as can be
Cost(x) == IF RIsNan(x) THEN "inf" ELSE x
Tunable(ps) == SelectSeq([i \in 1..Len(ps) |-> i], LAMBDA i : ~ps[i].fixed)

\* ------------------------------------------------------------ evaluations
Searching(st) == st.method \in {"search", "gradient", "greedy", "opaque"}
\* greedy: batches
BatchSize(st) == 2 * st.n + IF st.batches = 0 THEN 1 ELSE 0
Turn(st) == LET t == Tunable(st.params) IN t[(st.batches % Len(t)) + 1]
Finished(st) == st.batches >= st.rounds * Len(Tunable(st.params))
Proposals(st) == [k \in 1..Len(st.batch) |-> st.batch[k].p[Turn(st)][2]]
Count(s, Test(_)) == Cardinality({i \in 1..Len(s) : Test(s[i])})
\* proposals around v: n on either side, or all on the free side of a bound
BatchOk(st) ==
  LET k == Turn(st) p == st.params[k] v == st.best[k][2] s == Proposals(st)
      up == Count(s, LAMBDA x : RLeq(v, x) \/ Close(v, x)) down == Count(s, LAMBDA x : RLeq(x, v) \/ Close(v, x))
      extra == IF st.batches = 0 THEN 1 ELSE 0
      low == Close(v, Low(p)) high == Close(v, High(p))  \* a value which only rounding keeps from a bound may count as either
      need(at, other) == extra + IF at THEN 0 ELSE IF REq(v, other) THEN 2 * st.n ELSE st.n
  IN FirstOf(<<Chk(up >= need(high, Low(p)), "greedy: too few proposals above"),
               Chk(down >= need(low, High(p)), "greedy: too few proposals below"),
               Chk(\A x \in {s[i] : i \in 1..Len(s)} : Close(x, v) \/ (RLt(Low(p), x) /\ RLt(x, High(p))), "greedy: proposal at or beyond a bound"),
               Chk(st.batches # 0 \/ Cardinality({s[i] : i \in 1..Len(s)}) = Len(s), "greedy: repeated proposal"),
               Chk(st.batches # 0 \/ \E i \in 1..Len(s) : Close(s[i], v), "greedy: initial parameters not tried")>>)
RECURSIVE Least(_)
Least(b) == IF Len(b) = 1 THEN b[1] ELSE LET r == Least(Tail(b)) IN IF RLt(r.out, b[1].out) THEN r ELSE b[1]
\* the best of a batch, if it is better than what was known
Settle(st) ==
  LET least == Least(st.batch) IN
  IF RLt(least.out, st.value) THEN [st EXCEPT !.best = least.p, !.value = least.out, !.batch = <<>>, !.batches = @ + 1]
  ELSE [st EXCEPT !.batch = <<>>, !.batches = @ + 1]
Seen(st, e) == [st EXCEPT !.count = @ + 1, !.least = IF RLt(Cost(e.out), @) THEN Cost(e.out) ELSE @]
AfterEval(st, e) ==
  LET s == Seen(st, e) IN
  IF st.method # "greedy" THEN s
  ELSE LET t == [s EXCEPT !.batch = Append(@, [p |-> e.p, out |-> Cost(e.out)])] IN
       IF Len(t.batch) = BatchSize(t) THEN Settle(t) ELSE t
GreedyEval(st, e) ==
  IF Finished(st) THEN "greedy: evaluation after the last round"
  ELSE IF ~SameBut(e.p, st.best, Turn(st)) THEN "greedy: changed more than one parameter of the best so far"
  ELSE IF Len(st.batch) + 1 < BatchSize(st) THEN ""
  ELSE BatchOk([st EXCEPT !.batch = Append(@, [p |-> e.p, out |-> Cost(e.out)])])
EvalVerdict(st, e) ==
  IF ~Searching(st) THEN "tuning: evaluation without a search"
  ELSE FirstOf(<<Chk(Allowed(st.params, e.p), "tuning: evaluated parameters out of bounds"),
                 Chk(st.method = "greedy" \/ st.count > 0 \/ SameAs(e.p, ValuesOf(st.params)), "tuning: does not start at the initial parameters"),
                 IF st.method = "greedy" THEN GreedyEval(st, e) ELSE "">>)

\* ------------------------------------------------------------------ result
Converged(st, out) == st.optimum = "none" \/
  RLeq(RSub(out, st.optimum), RAdd("1e-5", RMul("0.02", RSub(Cost(st.out), st.optimum))))
\* up to rounding: values tuned on a logarithmic scale are recomputed
NoMore(a, b) == RLeq(Cost(a), Cost(b)) \/ (RIsFinite(a) /\ RIsFinite(b) /\ RNear(a, b, "1e-9", "1e-9"))
\* nothing evaluated is better; the derivative-free searches return the best one
ResultVerdict(st, e) ==
  FirstOf(<<Chk(Searching(st), "tuning: result without a search"),
            Chk(Allowed(st.params, e.p), "tuning: result out of bounds"),
            Chk(e.same_priors, "tuning: result has other priors"),
            Chk(e.untouched, "tuning: the initial parameters changed"),
            Chk(NoMore(e.out, st.out), "tuning: result worse than the initial parameters"),
            Chk(st.method # "search" \/ NoMore(e.out, st.least), "tuning: result is not the best evaluated"),
            Chk(st.method # "greedy" \/ (Finished(st) /\ SameAs(e.p, st.best) /\ (st.value = "inf" \/ Cost(e.out) = st.value)), "greedy: result is not the best evaluated"),
            Chk(st.budget = 0 \/ st.method # "search" \/ st.count <= st.budget + 10, "tuning: more evaluations than the optimizer allows"),
            Chk(Converged(st, e.out), "tuning: far from the optimum")>>)

\* -------------------------------------------- models scored on several data sets
MetricVerdict(st, e) ==
  FirstOf(<<Chk(Allowed(st.params, e.p), "tuning: model parameters out of bounds"),
            Chk(e.set = st.sets[Len(st.metrics) + 1], "tuning: data sets out of order"),
            Chk(st.metrics = <<>> \/ e.p = st.at, "tuning: parameters changed between data sets")>>)
AfterMetric(st, e) == [st EXCEPT !.metrics = Append(@, e.out), !.at = e.p]
AggregateVerdict(st, e) ==
  FirstOf(<<Chk(Len(st.metrics) = Len(st.sets), "tuning: not all data sets were scored"),
            Chk(e.values = st.metrics, "tuning: aggregates other values"),
            EvalVerdict(st, [p |-> st.at, out |-> e.out])>>)
AfterAggregate(st, e) == [AfterEval(st, [p |-> st.at, out |-> e.out]) EXCEPT !.metrics = <<>>]

\* ---------------------------------------------------------------- gradients
\* f(v) = sum_ij A_ij (v_i - c_i)(v_j - c_j), of the values of all parameters
Offset(e, vals) == VecSub(vals, e.c)
Quadratic(e, vals) == Dot(Offset(e, vals), MatVec(e.A, Offset(e, vals)))
Coordinate(p, v) == IF p.log THEN RLog(v) ELSE R(v)
Slope(e, vals, i) == RMul(2, Dot(e.A[i], Offset(e, vals)))
Slope2(e, vals, i) == \* bound on the curvature along the tuned coordinate
  IF e.params[i].log THEN RAdd(RMul(RSq(vals[i]), RMul(2, RAbs(e.A[i][i]))), RAbs(RMul(vals[i], Slope(e, vals, i)))) ELSE RMul(2, RAbs(e.A[i][i]))
Derivative(e, vals, i) == IF e.params[i].log THEN RMul(vals[i], Slope(e, vals, i)) ELSE Slope(e, vals, i)
Roughness(e, vals, i) == \* what rounding changes the objective by
  LET o == [k \in 1..Len(vals) |-> RAdd(RAbs(vals[k]), RAbs(e.c[k]))]
      B == [r \in 1..Len(o) |-> [s \in 1..Len(o) |-> RAbs(e.A[r][s])]]
  IN RMul("1e-14", RAdd(Dot(o, MatVec(B, o)), RAbs(Derivative(e, vals, i))))
BaseValues(ps) == [i \in 1..Len(ps) |-> ps[i].v]
Probes(e, i) == {k \in 1..Len(e.evals) : SameBut(e.evals[k], ValuesOf(e.params), i) /\ ~SameAs(e.evals[k], ValuesOf(e.params))}
StepOf(e, i, k) == RSub(Coordinate(e.params[i], e.evals[k][i][2]), Coordinate(e.params[i], e.params[i].v))
Span(p) == IF RIsFinite(p.lo) /\ RIsFinite(p.hi) THEN RMax(1, RSub(p.hi, p.lo)) ELSE "1"
Pushed(p, g) == \* at a bound there is no slope out of the bounds
  IF REq(p.v, p.hi) /\ RLt(g, 0) THEN "0" ELSE IF REq(p.v, p.lo) /\ RLt(0, g) THEN "0" ELSE g
SlopeOk(e, t, i, k) ==
  LET vals == BaseValues(e.params) h == RAbs(StepOf(e, i, k)) g == Derivative(e, vals, i)
      tol == RAdd(RAdd(RMul(RMul(2, h), Slope2(e, vals, i)), RDiv(Roughness(e, vals, i), h)), RMul("1e-6", RAbs(g)))
  IN /\ RLeq(h, RMul("1e-5", Span(e.params[i])))
     /\ RNear(e.out[t], Pushed(e.params[i], g), "0", tol) \/ (RLeq(RAbs(g), tol) /\ RLeq(RAbs(e.out[t]), tol))
GradientVerdict(e) ==
  LET t == Tunable(e.params) IN
  FirstOf(<<Chk(Len(e.out) = Len(t), "gradient: size"),
            Chk(\A k \in 1..Len(e.evals) : Allowed(e.params, e.evals[k]), "gradient: evaluated parameters out of bounds"),
            Chk(\A i \in 1..Len(t) : Probes(e, t[i]) # {}, "gradient: a parameter was not varied"),
            Chk(\A i \in 1..Len(t) : \A k \in Probes(e, t[i]) : SlopeOk(e, i, t[i], k), "gradient: slope")>>)

MeanVerdict(e) == Chk(IF e.values = <<>> THEN RIsNan(e.out)
                      ELSE RNear(e.out, RDiv(RSum(e.values), Len(e.values)), "1e-12", RMul("1e-13", RSum([i \in 1..Len(e.values) |-> RAbs(e.values[i])]))), "aggregate: mean")

Verdict(st, e) ==
  CASE e.op = "start" -> Chk(st.method = "none", "tuning: started twice")
    [] e.op = "eval" -> EvalVerdict(st, e)
    [] e.op = "metric" -> MetricVerdict(st, e)
    [] e.op = "aggregate" -> AggregateVerdict(st, e)
    [] e.op = "result" -> ResultVerdict(st, e)
    [] e.op = "gave_up" -> Chk(st.method = "gradient", "tuning: no result")
    [] e.op = "gradient" -> GradientVerdict(e)
    [] e.op = "mean" -> MeanVerdict(e)
After(st, e) ==
  CASE e.op = "start" -> [method |-> e.method, params |-> e.params, out |-> e.out, optimum |-> e.optimum, n |-> e.n, rounds |-> e.rounds, budget |-> e.budget, sets |-> e.sets,
                          count |-> 0, least |-> "inf", best |-> ValuesOf(e.params), value |-> "inf", batch |-> <<>>, batches |-> 0, metrics |-> <<>>, at |-> <<>>]
    [] e.op = "eval" -> AfterEval(st, e)
    [] e.op = "metric" -> AfterMetric(st, e)
    [] e.op = "aggregate" -> AfterAggregate(st, e)
    [] OTHER -> st
=============================================================================
