--------------------------- MODULE CrossValidation ---------------------------
(***************************************************************************)
(* C15.  Each fold is predicted from everything outside the fold.          *)
(* Refitting predicts what the model fit to the complement predicts; the   *)
(* closed form predicts the held out measurements, with their noise.       *)
(***************************************************************************)
EXTENDS TLC, Gaussian, Verdicts, Sequences, FiniteSets, SequencesExt

Start == [model |-> "none", cov |-> "none", mean |-> "none",
          data |-> [xs |-> <<>>, y |-> <<>>, noise |-> <<>>], groups |-> <<>>]

\* groups: sequence of [k |-> key, idx |-> positions], by increasing key
Positions(keys, k) == SelectSeq([i \in 1..Len(keys) |-> i], LAMBDA i : keys[i] = k)
ByKey(keys) == LET ks == SetToSortSeq({keys[i] : i \in 1..Len(keys)}, <) IN
               [g \in 1..Len(ks) |-> [k |-> ks[g], idx |-> Positions(keys, ks[g])]]
After(st, e) ==
  CASE e.op = "model" -> [st EXCEPT !.model = e.kind, !.cov = e.cov, !.mean = e.mean]
    [] e.op = "data" -> [st EXCEPT !.data = [xs |-> e.xs, y |-> e.y, noise |-> e.noise]]
    [] e.op = "keys" -> [st EXCEPT !.groups = ByKey(e.keys)]
    [] e.op = "groups" -> [st EXCEPT !.groups = [g \in 1..Len(e.groups) |-> [k |-> e.groups[g].k, idx |-> [i \in 1..Len(e.groups[g].idx) |-> e.groups[g].idx[i] + 1]]]]
    [] OTHER -> st

Rest(n, idx) == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \notin RangeOf(idx))
Part(d, idx) == [xs |-> SubVec(d.xs, idx), y |-> SubVec(d.y, idx), noise |-> SubVec(d.noise, idx)]
Complement(st, idx) == Part(st.data, Rest(Len(st.data.y), idx))

\* a model that reveals what it was fit to, whatever the order
SumXY(xs, ys) == RSum([i \in 1..Len(xs) |-> RMul(xs[i].x, ys[i])])
Spy(d, xs) ==
  LET n == Len(xs) IN
  [mean |-> [i \in 1..n |-> RAdd(RAdd(SumXY(d.xs, d.y), RSum(d.y)), RMul("1000", xs[i].x))],
   cov |-> [i \in 1..n |-> [k \in 1..n |-> IF i = k THEN RAdd(RAdd(RSum(d.noise), R(Len(d.y))), RSq(xs[i].x)) ELSE "1/4"]]]
\* best line through the data
Line(d) == LET A == [i \in 1..Len(d.xs) |-> <<"1", d.xs[i].x>>] At == Transpose(A) IN VecSolve(MatMul(At, A), MatVec(At, d.y))
Refit(st, idx) ==
  LET d == Complement(st, idx) xs == SubVec(st.data.xs, idx) n == Len(idx) IN
  CASE st.model = "gp" -> Posterior(st.cov, st.mean, d, xs)
    [] st.model = "spy" -> Spy(d, xs)
    [] st.model = "null" -> [mean |-> Zeros(n), cov |-> MatScale("10000", Identity(n))]
    [] st.model = "line" -> LET c == Line(d) IN [mean |-> [i \in 1..n |-> RAdd(c[1], RMul(c[2], xs[i].x))], cov |-> ZeroMat(n, n)]
\* held out measurements given all the others
HeldOut(K, prior, y, idx) ==
  LET o == Rest(Len(y), idx) r == VecSub(y, prior)
      g == Given(SubMat(K, o, o), SubMat(K, o, idx), SubMat(K, idx, idx), SubVec(r, o))
  IN [g EXCEPT !.mean = VecAdd(@, SubVec(prior, idx))]
\* what each group should be predicted to be
Folds(st, how) ==
  IF how = "closed"
  THEN LET K == TLCEval(TrainCov(st.cov, st.data)) prior == TLCEval(MeanVector(st.mean, Measured(st.data.xs)))
       IN TLCEval([g \in 1..Len(st.groups) |-> TLCEval(HeldOut(K, prior, st.data.y, st.groups[g].idx))])
  ELSE TLCEval([g \in 1..Len(st.groups) |-> TLCEval(Refit(st, st.groups[g].idx))])

\* in the original order of the data: at each position, from the group that holds it
GroupAt(st, i) == CHOOSE g \in 1..Len(st.groups) : i \in RangeOf(st.groups[g].idx)
PlaceOf(idx, i) == CHOOSE p \in 1..Len(idx) : idx[p] = i
Flattened(st, folds, n) ==
  [mean |-> [i \in 1..n |-> LET g == GroupAt(st, i) IN folds[g].mean[PlaceOf(st.groups[g].idx, i)]],
   var |-> [i \in 1..n |-> LET g == GroupAt(st, i) p == PlaceOf(st.groups[g].idx, i) IN folds[g].cov[p][p]]]

\* metrics: d is the held out part of the data
Metric(name, pred, d) ==
  LET n == Len(d.y) IN
  CASE name = "rmse" -> RSqrt(RDiv(RSum([i \in 1..n |-> RSq(RSub(pred.mean[i], d.y[i]))]), R(n)))
    [] name = "nll joint" -> RNeg(LogDensity(VecSub(d.y, pred.mean), MatAdd(pred.cov, DiagMat(d.noise))))
    [] name = "nll marginal" -> RNeg(LogDensity(VecSub(d.y, pred.mean), DiagMat(VecAdd(DiagOf(pred.cov), d.noise))))
    [] name = "probe" -> RAdd(pred.mean[1], RMul("3", RAdd(d.y[n], d.noise[1])))

Tol == "1e-7"
Keyed(st, out, ok(_, _)) ==
  /\ Len(out) = Len(st.groups)
  /\ \A i \in 1..Len(out) : out[i].k = st.groups[i].k /\ ok(out[i], st.groups[i].idx)
Folded(st, e, ok(_, _)) == LET f == Folds(st, e.how) IN Len(e.out) = Len(f) /\ \A i \in 1..Len(f) : e.out[i].k = st.groups[i].k /\ ok(e.out[i], f[i])
MeanOk(o, want) == VecNear(o.mean, want.mean, Tol, Tol)
MargOk(o, want) == MeanOk(o, want) /\ VecNear(o.var, DiagOf(want.cov), Tol, Tol)
JointOk(o, want) == MeanOk(o, want) /\ MatNear(o.cov, want.cov, Tol, Tol)

Scores(st, e) == LET f == Folds(st, e.how) IN TLCEval([g \in 1..Len(f) |-> Metric(e.metric, f[g], Part(st.data, st.groups[g].idx))])

Verdict(st, e) ==
  CASE e.op \in {"model", "data", "keys", "groups"} -> ""
    [] e.op = "fold" ->
         \* the library's own folds, or those a predictor saw
         Chk(Keyed(st, e.out, LAMBDA o, idx : [i \in 1..Len(o.idx) |-> o.idx[i] + 1] = idx /\ o.test = SubVec(st.data.xs, idx) /\ o.y = SubVec(st.data.y, idx)
                                             /\ o.noise = SubVec(st.data.noise, idx) /\ o.train = SubVec(st.data.xs, Rest(Len(st.data.y), idx))), "folds")
    [] e.op = "means" -> Chk(Folded(st, e, MeanOk), "means of the folds (" \o e.how \o ")")
    [] e.op = "marginals" -> Chk(Folded(st, e, MargOk), "marginals of the folds (" \o e.how \o ")")
    [] e.op = "joints" -> Chk(Folded(st, e, JointOk), "joints of the folds (" \o e.how \o ")")
    [] e.op = "flat" ->
         LET n == Len(st.data.y)
             f == Flattened(st, Folds(st, e.how), n) IN
         FirstOf(<<Chk(VecNear(e.mean, f.mean, Tol, Tol), "mean in the order of the data (" \o e.how \o ")"),
                   Chk(e.var = <<>> \/ VecNear(e.var, f.var, Tol, Tol), "marginal in the order of the data (" \o e.how \o ")")>>)
    [] e.op = "scores" ->
         Chk(VecNear(e.out, Scores(st, e), Tol, Tol),
             "scores: " \o e.metric \o " (" \o e.how \o ")")
    [] e.op = "model_metric" ->
         LET s == Scores(st, e)
             want == IF e.kind = "sum" THEN RSub(RSum(s), e.prior) ELSE RDiv(RSum(s), R(Len(s)))
         IN Chk(RNear(e.out, want, Tol, Tol), "model metric: " \o e.name)
    [] e.op = "loo" -> \* of given matrices: every variable given all others
         LET K == TLCEval(MatAdd(e.K, DiagMat(e.noise)))
             w == TLCEval([i \in 1..Len(e.y) |-> HeldOut(K, e.prior, e.y, <<i>>)])
         IN FirstOf(<<Chk(VecNear(e.var, [i \in 1..Len(w) |-> w[i].cov[1][1]], Tol, Tol), "leave one out variance"),
                      Chk(VecNear(e.mean, [i \in 1..Len(w) |-> w[i].mean[1]], Tol, Tol), "leave one out mean"),
                      Chk(VecNear(e.only_var, [i \in 1..Len(w) |-> w[i].cov[1][1]], Tol, Tol), "leave one out conditional variance")>>)
    [] e.op = "logo" -> \* of given matrices, by groups
         LET K == TLCEval(MatAdd(e.K, DiagMat(e.noise))) W(idx) == HeldOut(K, e.prior, e.y, idx) IN
         FirstOf(<<Chk(Keyed(st, e.means, LAMBDA o, idx : MeanOk(o, W(idx))), "leave group out means"),
                   Chk(Keyed(st, e.marginals, LAMBDA o, idx : MargOk(o, W(idx))), "leave group out marginals"),
                   Chk(Keyed(st, e.joints, LAMBDA o, idx : JointOk(o, W(idx))), "leave group out joints")>>)
    [] e.op = "size" -> Chk(e.out = Len(st.data.y), "size of the data of an indexer")
=============================================================================
