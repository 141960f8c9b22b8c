------------------------------- MODULE Ransac -------------------------------
(***************************************************************************)
(* C19.  The consensus loop as a machine: candidates are drawn one after   *)
(* another; rejected ones count towards a limit, accepted ones are         *)
(* extended to their inliers; the best consensus so far is kept.  The      *)
(* user's functions are arbitrary: f is what they answer for a candidate.  *)
(***************************************************************************)
EXTENDS Gaussian, Verdicts, FiniteSets, SequencesExt
CV == INSTANCE CrossValidation

NoConfig == [groups |-> <<>>, threshold |-> "nan", sample |-> 0, min |-> 0, max |-> 0, max_failed |-> 0]
Start == [config |-> NoConfig, running |-> FALSE, accepted |-> 0, rejected |-> 0, good |-> <<>>, drawn |-> {},
          cov |-> "none", mean |-> "none", data |-> [xs |-> <<>>, y |-> <<>>, noise |-> <<>>], keys |-> <<>>]
Config(e) == [groups |-> e.groups, threshold |-> e.threshold, sample |-> e.sample, min |-> e.min, max |-> e.max, max_failed |-> e.max_failed]
ValidConfig(c) == /\ c.sample > 0 /\ c.max > 0 /\ c.sample <= c.min
                  /\ c.min < Len(c.groups) /\ c.sample < Len(c.groups)
Limit(c) == IF c.max_failed = 0 THEN 1 ELSE c.max_failed
Done(st) == ~ValidConfig(st.config) \/ st.accepted = st.config.max \/ st.rejected = Limit(st.config)

KeysOf(pairs) == {pairs[i][1] : i \in 1..Len(pairs)}
\* what the loop has to make of candidate c, given what the user's functions answer for it:
\*   [valid, metrics: sequence of <<group, value>> of the others, consensus: value for the consensus]
IsInlier(c, v) == RLeq(v, c.threshold)
Inliers(c, f) == SelectSeq(f.metrics, LAMBDA p : IsInlier(c, p[2]))
Outliers(c, f) == SelectSeq(f.metrics, LAMBDA p : ~IsInlier(c, p[2]))
Enough(c, cands, f) == Len(cands) + Len(Inliers(c, f)) >= c.min
Iteration(c, cands, f) ==
  IF ~f.valid THEN [candidates |-> cands, inliers |-> <<>>, outliers |-> <<>>, metric |-> "nan"]
  ELSE [candidates |-> cands, inliers |-> Inliers(c, f), outliers |-> Outliers(c, f),
        metric |-> IF Enough(c, cands, f) THEN f.consensus ELSE "nan"]
SameIteration(a, b) == /\ RangeOf(a.candidates) = RangeOf(b.candidates) /\ Len(a.candidates) = Len(b.candidates)
                       /\ RangeOf(a.inliers) = RangeOf(b.inliers) /\ RangeOf(a.outliers) = RangeOf(b.outliers)
                       /\ RSame(a.metric, b.metric)
\* a metric that is not a number is worse than any that is
Better(a, b) == RLt(a, b) \/ (RIsNan(b) /\ ~RIsNan(a))
IsBest(good, it) == \A i \in 1..Len(good) : ~Better(good[i].metric, it.metric)

After(st, e) ==
  CASE e.op = "begin" -> [st EXCEPT !.config = Config(e), !.running = TRUE, !.accepted = 0, !.rejected = 0, !.good = <<>>, !.drawn = {}]
    [] e.op = "iterate" ->
         LET it == Iteration(st.config, e.it.candidates, e.f) IN
         [st EXCEPT !.accepted = IF e.f.valid THEN @ + 1 ELSE @, !.rejected = IF e.f.valid THEN @ ELSE @ + 1,
                    !.good = IF e.f.valid /\ Enough(st.config, e.it.candidates, e.f) THEN Append(@, it) ELSE @,
                    !.drawn = @ \cup {RangeOf(e.it.candidates)}]
    [] e.op = "end" -> [st EXCEPT !.running = FALSE]
    [] e.op = "model" -> [st EXCEPT !.cov = e.cov, !.mean = e.mean]
    [] e.op = "data" -> [st EXCEPT !.data = [xs |-> e.xs, y |-> e.y, noise |-> e.noise], !.keys = e.keys]
    [] OTHER -> st

Code(st) == CASE ~ValidConfig(st.config) -> "invalid_arguments"
              [] st.accepted < st.config.max -> "exceeded_max_failed_candidates"
              [] st.good = <<>> -> "no_consensus"
              [] OTHER -> "success"

\* ------------------------------------------- functions made from a model and data
IndicesOf(st, groups) == SelectSeq([i \in 1..Len(st.keys) |-> i], LAMBDA i : st.keys[i] \in RangeOf(groups))
PartOf(st, groups) == CV!Part(st.data, IndicesOf(st, groups))
Fitted(st, groups, xs) == Posterior(st.cov, st.mean, PartOf(st, groups), xs)
\* the same measurements as numbers with a known prior
MPrior(st, idx) == [mean |-> SubVec(MeanVector(st.mean, Measured(st.data.xs)), idx), cov |-> Gram(st.cov, Measured(SubVec(st.data.xs, idx)))]
Conditional(st, groups, idx) ==
  LET tr == IndicesOf(st, groups) all == [i \in 1..Len(st.keys) |-> i] p == MPrior(st, all)
      g == Given(MatAdd(SubMat(p.cov, tr, tr), DiagMat(SubVec(st.data.noise, tr))), SubMat(p.cov, tr, idx), SubMat(p.cov, idx, idx),
                 VecSub(SubVec(st.data.y, tr), SubVec(p.mean, tr)))
  IN [g EXCEPT !.mean = VecAdd(@, SubVec(p.mean, idx))]
\* leave one out over the consensus, through the closed form
LooScores(st, groups, metric) ==
  LET d == PartOf(st, groups) s == [CV!Start EXCEPT !.model = "gp", !.cov = st.cov, !.mean = st.mean, !.data = d,
                                                                          !.groups = [i \in 1..Len(d.y) |-> [k |-> i, idx |-> <<i>>]]]
      f == CV!Folds(s, "closed")
  IN [i \in 1..Len(d.y) |-> CV!Metric(metric, f[i], CV!Part(d, <<i>>))]

Tol == "1e-7"
Verdict(st, e) ==
  CASE e.op \in {"model", "data", "begin"} -> ""
    [] e.op = "iterate" ->
         LET c == st.config it == e.it IN
         FirstOf(<<Chk(~Done(st), "candidates after the loop should have ended"),
                   Chk(Len(it.candidates) = c.sample /\ Cardinality(RangeOf(it.candidates)) = c.sample /\ RangeOf(it.candidates) \subseteq RangeOf(c.groups), "candidates"),
                   Chk(~e.f.valid => it.inliers = <<>> /\ it.outliers = <<>>, "rejected candidates extended"),
                   Chk(e.f.valid => RangeOf(it.candidates) \cup KeysOf(it.inliers) \cup KeysOf(it.outliers) = RangeOf(c.groups)
                                    /\ Len(it.candidates) + Len(it.inliers) + Len(it.outliers) = Len(c.groups), "candidates, inliers and outliers do not partition the groups"),
                   Chk(SameIteration(it, Iteration(c, it.candidates, e.f)), "inliers, outliers or metric of an iteration")>>)
    [] e.op = "end" ->
         FirstOf(<<Chk(Done(st), "loop ended early"),
                   Chk(e.code = Code(st), "return code " \o e.code \o " instead of " \o Code(st)),
                   Chk(e.consensus = e.best.candidates \o [i \in 1..Len(e.best.inliers) |-> e.best.inliers[i][1]], "consensus is not the candidates and the inliers"),
                   Chk(IF st.good = <<>> THEN e.consensus = <<>>
                       ELSE (\E i \in 1..Len(st.good) : SameIteration(e.best, st.good[i])) /\ IsBest(st.good, e.best), "best consensus"),
                   \* with 8 or more groups to draw from this fails by chance less than once in 1e15 runs
                   Chk(Len(st.config.groups) < 8 \/ st.accepted + st.rejected < 20 \/ Cardinality(st.drawn) > 1, "the same candidates every time")>>)
    [] e.op = "printed" -> \* the text tells what happened, to the digits shown
         LET n == Len(e.its) close(a, b) == RSame(a, b) \/ RNear(a, b, "1e-5", "1e-300")
             pairs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k][1] = b[k][1] /\ close(b[k][2], a[k][2]) IN
         FirstOf(<<Chk(Len(e.read) = n /\ e.titles = [k \in 1..n |-> IF k = n THEN "==== Best ====" ELSE "==== Iteration " \o ToString(k - 1) \o "===="], "printed iterations"),
                   Chk(e.code = e.expected /\ ~e.rest, "printed return code"),
                   Chk(\A k \in 1..n : /\ e.read[k].ok /\ e.read[k].candidates = e.its[k].candidates /\ pairs(e.read[k].inliers, e.its[k].inliers)
                                       /\ pairs(e.read[k].outliers, e.its[k].outliers) /\ close(e.read[k].metric, e.its[k].metric), "printed iteration")>>)
    [] e.op = "same" -> Chk(e.equal = e.expected, e.what)
    [] e.op = "fitter" ->
         LET idx == [i \in 1..Len(st.data.xs) |-> i] IN
         Chk(JointNear(e.out, IF e.strategy = "gp" THEN Conditional(st, e.groups, idx) ELSE Fitted(st, e.groups, st.data.xs), Tol, Tol), "fit of a candidate (" \o e.strategy \o ")")
    [] e.op = "inlier" ->
         LET idx == IndicesOf(st, <<e.group>>)
             pred == IF e.strategy = "gp" THEN Conditional(st, e.groups, idx) ELSE Fitted(st, e.groups, SubVec(st.data.xs, idx)) IN
         Chk(RNear(e.out, CV!Metric(e.metric, pred, PartOf(st, <<e.group>>)), Tol, Tol), "inlier metric (" \o e.strategy \o ")")
    [] e.op = "consensus" ->
         LET d == PartOf(st, e.groups) s == LooScores(st, e.groups, IF e.metric = "loo rmse" THEN "rmse" ELSE "nll joint")
             want == CASE e.metric = "count" -> RNeg(R(Len(d.y)))
                       [] e.metric = "loo rmse" -> RDiv(RSum(s), R(Len(s)))
                       [] e.metric = "loo nll" -> RSub(RSum(s), e.prior)
                       [] e.metric = "prior sum" -> LET p == MPrior(st, IndicesOf(st, e.groups)) IN RAdd(RAdd(RSum(p.mean), RSum(d.y)), RAdd(RSum(DiagOf(p.cov)), RSum(d.noise)))
         IN Chk(RNear(e.out, want, Tol, Tol), "consensus metric " \o e.metric)
    [] e.op = "candidate" -> \* accepted exactly when the user's test of prior and truth says so
         LET p == MPrior(st, IndicesOf(st, e.groups)) d == PartOf(st, e.groups) IN
         Chk(RNear(e.score, RAdd(RSum(VecSub(d.y, p.mean)), RMul("2", RAdd(RSum(DiagOf(p.cov)), RSum(d.noise)))), Tol, Tol) /\ e.out = RLt(e.score, e.limit), "validity of a candidate")
    [] e.op = "wrapped" ->
         FirstOf(<<Chk(e.has = (e.code = "success"), "a fit without consensus or none with"),
                   Chk(~e.has \/ JointNear(e.joint, Fitted(st, e.consensus, e.xs), Tol, Tol), "prediction of the wrapped model")>>)
=============================================================================
