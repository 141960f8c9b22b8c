--------------------------- MODULE ModelInterface ---------------------------
(***************************************************************************)
(* C29.  Models, fits and predictions as values.  State: two models        *)
(* (parameters a and b, and a note among the insights), two fits (the      *)
(* model they hold, the parameters they were made with and the batches of  *)
(* data they have seen, in order) and two predictions.  A prediction of a  *)
(* fit that lives on refers to it (ref = its handle) and follows it; one   *)
(* of a temporary fit owns it (own = a snapshot) and nothing that happens  *)
(* later changes it.  What a prediction answers is a function of the fit,  *)
(* the parameters its model has, the features, and the kind asked for: for *)
(* the transparent model the function is known, for every other model it   *)
(* has to be the same function throughout (memo).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts, Real

None == [none |-> TRUE]
Is(x) == x # None
NewModel == [a |-> 1, b |-> 1, note |-> ""]

(* ------------------------------ transitions ---------------------------- *)
Start == [kind |-> "", models |-> <<NewModel, NewModel>>, fits |-> <<None, None>>, preds |-> <<None, None>>, memo |-> {}]
Fitted(m, data) == [mp |-> m, fp |-> m, data |-> <<data>>]
More(f, data) == [f EXCEPT !.data = Append(@, data)]
Ref(f, xs, noisy) == [ref |-> f, own |-> None, xs |-> xs, noisy |-> noisy]
Own(fit, xs, noisy) == [ref |-> 0, own |-> fit, xs |-> xs, noisy |-> noisy]
\* the fit at a handle is gone: so are the predictions that refer to it
Drop(st, f) == [st EXCEPT !.fits[f] = None, !.preds = [p \in DOMAIN @ |-> IF Is(@[p]) /\ @[p].ref = f THEN None ELSE @[p]]]
\* what an operation needs in order to be possible
Allowed(st, e) ==
  CASE e.op \in {"set", "note", "new_model", "copy_model", "fit", "predict_fresh"} -> TRUE
    [] e.op \in {"take_model", "set_fitted", "drop_fit", "update_in_place", "predict", "predict_moved"} -> Is(st.fits[e.f])
    [] e.op \in {"copy_fit", "move_fit", "update"} -> Is(st.fits[e.from]) /\ (e.op = "move_fit" => e.from # e.f)
    [] e.op = "copy_prediction" -> Is(st.preds[e.from]) /\ e.from # e.p
    [] OTHER -> FALSE
Apply(st, e) ==
  CASE e.op = "begin" -> [Start EXCEPT !.kind = e.kind]
    [] e.op = "set" -> [st EXCEPT !.models[e.m][e.n] = e.v]
    [] e.op = "note" -> [st EXCEPT !.models[e.m].note = e.v]
    [] e.op = "new_model" -> [st EXCEPT !.models[e.m] = NewModel]
    [] e.op = "copy_model" -> [st EXCEPT !.models[e.m] = st.models[e.from]]
    [] e.op = "take_model" -> [st EXCEPT !.models[e.m] = st.fits[e.f].mp]
    [] e.op = "set_fitted" -> [st EXCEPT !.fits[e.f].mp[e.n] = e.v]
    [] e.op = "fit" -> [st EXCEPT !.fits[e.f] = Fitted(st.models[e.m], e.data)]
    [] e.op = "copy_fit" -> [st EXCEPT !.fits[e.f] = st.fits[e.from]]
    [] e.op = "move_fit" -> Drop([st EXCEPT !.fits[e.f] = st.fits[e.from]], e.from)
    [] e.op = "drop_fit" -> Drop(st, e.f)
    [] e.op = "update" -> [st EXCEPT !.fits[e.f] = More(st.fits[e.from], e.data)]
    [] e.op = "update_in_place" -> [st EXCEPT !.fits[e.f] = More(@, e.data)]
    [] e.op = "predict" -> [st EXCEPT !.preds[e.p] = Ref(e.f, e.xs, e.noisy)]
    [] e.op = "predict_moved" -> Drop([st EXCEPT !.preds[e.p] = Own(st.fits[e.f], e.xs, e.noisy)], e.f)
    [] e.op = "predict_fresh" -> [st EXCEPT !.preds[e.p] = Own(Fitted(st.models[e.m], e.data), e.xs, e.noisy)]
    [] e.op = "copy_prediction" -> [st EXCEPT !.preds[e.p] = st.preds[e.from]]
    [] OTHER -> st
\* the fit a prediction speaks of
Source(st, p) == IF st.preds[p].ref = 0 THEN st.preds[p].own ELSE st.fits[st.preds[p].ref]
Asked(st, p) == [fit |-> [Source(st, p) EXCEPT !.mp.note = "", !.fp.note = ""], xs |-> st.preds[p].xs, noisy |-> st.preds[p].noisy]

(* ---------------- the transparent model: all integers ------------------ *)
RECURSIVE Flat(_)
Flat(batches) == IF batches = <<>> THEN <<>> ELSE Head(batches) \o Flat(Tail(batches))
Level(fit) == LET d == Flat(fit.data)
                  s[k \in 0..Len(d)] == IF k = 0 THEN 0 ELSE s[k - 1] + k * (d[k][1] * d[k][2] + d[k][3])
              IN  fit.fp.a * s[Len(d)]
Noise(q) == IF q.noisy THEN 2 ELSE 0
TMean(q) == [k \in DOMAIN q.xs |-> q.fit.mp.b * q.xs[k] + Level(q.fit)]
TVar(q) == [k \in DOMAIN q.xs |-> 1 + q.xs[k] * q.xs[k] + Noise(q)]
TCov(q) == [r \in DOMAIN q.xs |-> [c \in DOMAIN q.xs |-> 1 + q.xs[r] * q.xs[c] + IF r = c THEN Noise(q) ELSE 0]]
\* its own implementations disagree on purpose, which shows the one that was used
Shifted(m, by) == [k \in DOMAIN m |-> m[k] + by]
Transparent(q, kind) ==
  CASE kind = "mean" -> [mean |-> TMean(q)]
    [] kind = "marginal" -> [mean |-> Shifted(TMean(q), 1), variance |-> TVar(q)]
    [] kind = "joint" -> [mean |-> Shifted(TMean(q), 2), covariance |-> TCov(q)]

(* ------------------------------ verdicts ------------------------------- *)
Near(a, b) == RNear(a, b, "1e-9", "1e-9")
NearV(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k])
NearM(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : NearV(a[k], b[k])
SameAnswer(a, b) == DOMAIN a = DOMAIN b /\ NearV(a.mean, b.mean)
                    /\ ("variance" \in DOMAIN a => NearV(a.variance, b.variance))
                    /\ ("covariance" \in DOMAIN a => NearM(a.covariance, b.covariance))
SizesOf(a, n) == Len(a.mean) = n /\ ("variance" \in DOMAIN a => Len(a.variance) = n)
                 /\ ("covariance" \in DOMAIN a => Len(a.covariance) = n /\ \A k \in 1..n : Len(a.covariance[k]) = n)
AskVerdict(st, e) ==
  LET q == Asked(st, e.p)
      known == {r \in st.memo : r.q = q /\ r.kind = e.kind}
  IN  FirstOf(<<
        Chk(SizesOf(e.out, Len(q.xs)), "a prediction's size"),
        Chk(e.size = Len(q.xs), "a prediction's number of features"),
        Chk(st.kind = "transparent" => e.out = Transparent(q, e.kind), "what a prediction answers"),
        Chk(\A r \in known : SameAnswer(r.out, e.out), "a prediction's answer is the function of fit, model and features it was")>>)
ObserveVerdict(st, e) ==
  FirstOf(<<
    Chk(e.models = st.models, "parameters and insights of the models"),
    Chk(DOMAIN e.fits = DOMAIN st.fits /\ \A f \in DOMAIN st.fits : Is(st.fits[f]) = Is(e.fits[f]), "fits that exist"),
    Chk(\A f \in DOMAIN st.fits : Is(st.fits[f]) => e.fits[f].mp = st.fits[f].mp, "parameters of the model of a fit"),
    Chk(\A f \in DOMAIN st.fits : Is(st.fits[f]) /\ st.kind = "transparent" => e.fits[f].data = Flat(st.fits[f].data), "data of a fit")>>)
SameFit(a, b) == a.mp = b.mp /\ a.fp = b.fp /\ a.data = b.data
EqualVerdict(st, e) ==
  LET a == st.fits[e.f] b == st.fits[e.from]
      must == SameFit(a, b)
      mustNot == a.mp # b.mp \/ (st.kind = "transparent" /\ (Flat(a.data) # Flat(b.data) \/ Level(a) # Level(b)))
  IN  FirstOf(<<Chk(must => e.out, "equality of equal fits"), Chk(mustNot => ~e.out, "equality of different fits")>>)
EqualModelsVerdict(st, e) ==
  Chk(e.out = (st.models[e.m] = st.models[e.from]), "equality of models")
Verdict(st, e) ==
  CASE e.op = "begin" -> ""
    [] e.op = "ask" -> AskVerdict(st, e)
    [] e.op = "observe" -> ObserveVerdict(st, e)
    [] e.op = "equal_fits" -> EqualVerdict(st, e)
    [] e.op = "equal_models" -> EqualModelsVerdict(st, e)
    [] OTHER -> Chk(Allowed(st, e), "operation that is not possible")
After(st, e) ==
  IF e.op = "ask" THEN [st EXCEPT !.memo = @ \cup {[q |-> Asked(st, e.p), kind |-> e.kind, out |-> e.out]}]
  ELSE Apply(st, e)
=============================================================================
