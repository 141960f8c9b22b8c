------------------------- MODULE MC_ModelInterface --------------------------
(***************************************************************************)
(* Every history of MaxLen operations from a few starting points; every    *)
(* pair of operations after each starting point is an input for the code.  *)
(***************************************************************************)
EXTENDS ModelInterface, Json, IOUtils, SequencesExt
CONSTANTS MaxLen
E(op) == [op |-> op]
D1 == << <<1, 2, 1>>, <<3, -1, 2>>, <<2, 4, 1>> >>
D2 == << <<-2, 5, 1>> >>
D3 == << <<5, 1, 3>>, <<4, -3, 1>> >>
Xs == <<2, -1>>
Hows == {"vectors", "dataset", "two"}
\* with is a starting point, f, m and p are handles
Events ==
  {E("set") @@ [m |-> m, n |-> n, v |-> 3] : m \in 1..2, n \in {"a", "b"}} \cup
  {E("note") @@ [m |-> 1, v |-> "seen"], E("new_model") @@ [m |-> 1], E("copy_model") @@ [m |-> 2, from |-> 1]} \cup
  {E("take_model") @@ [m |-> 2, f |-> 1]} \cup
  {E("set_fitted") @@ [f |-> f, n |-> n, v |-> 2] : f \in 1..2, n \in {"a", "b"}} \cup
  {E("fit") @@ [f |-> f, m |-> m, how |-> "dataset", data |-> D3] : f \in 1..2, m \in 1..2} \cup
  {E("fit") @@ [f |-> 1, m |-> 2, how |-> h, data |-> D1] : h \in Hows} \cup
  {E("copy_fit") @@ [f |-> 3 - g, from |-> g] : g \in 1..2} \cup
  {E("move_fit") @@ [f |-> 3 - g, from |-> g] : g \in 1..2} \cup
  {E("drop_fit") @@ [f |-> 1]} \cup
  {E("update") @@ [f |-> f, from |-> 1, how |-> h, data |-> D2] : f \in 1..2, h \in {"vectors", "dataset", "free"}} \cup
  {E("update_in_place") @@ [f |-> 1, how |-> h, data |-> D3] : h \in {"vectors", "dataset"}} \cup
  {E("predict") @@ [p |-> 2, f |-> f, xs |-> x, noisy |-> z] : f \in 1..2, x \in {Xs, <<>>}, z \in BOOLEAN} \cup
  {E("predict_moved") @@ [p |-> 2, f |-> f, xs |-> Xs, noisy |-> z] : f \in 1..2, z \in BOOLEAN} \cup
  {E("predict_fresh") @@ [p |-> 2, m |-> 2, data |-> D2, xs |-> Xs, noisy |-> z] : z \in BOOLEAN} \cup
  {E("copy_prediction") @@ [p |-> 2, from |-> 1]}
Starts == {
  << E("fit") @@ [f |-> 1, m |-> 1, how |-> "dataset", data |-> D1], E("predict") @@ [p |-> 1, f |-> 1, xs |-> Xs, noisy |-> FALSE] >>,
  << E("set") @@ [m |-> 1, n |-> "a", v |-> 2], E("fit") @@ [f |-> 1, m |-> 1, how |-> "vectors", data |-> D1],
     E("copy_fit") @@ [f |-> 2, from |-> 1], E("predict_moved") @@ [p |-> 1, f |-> 2, xs |-> Xs, noisy |-> TRUE] >> }
RECURSIVE Run(_, _)
Run(st, l) == IF l = <<>> THEN st ELSE Run(Apply(st, Head(l)), Tail(l))
Possible(st, l) == \A k \in DOMAIN l : Allowed(Run(st, SubSeq(l, 1, k - 1)), l[k])
ASSUME \A s \in Starts : Possible(Start, s)
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[ops |-> s \o <<x, y>>] : s \in Starts, x \in Events, y \in Events} \cap
                                           {l \in {[ops |-> s \o <<x, y>>] : s \in Starts, x \in Events, y \in Events} : Possible(Start, l.ops)}))
VARIABLES st, k, last
vars == <<st, k, last>>
Init == \E s \in Starts : st = Run([Start EXCEPT !.kind = "transparent"], s) /\ k = 0 /\ last = E("none")
Next == k < MaxLen /\ \E e \in Events : Allowed(st, e) /\ st' = Apply(st, e) /\ last' = e /\ k' = k + 1
\* predictions that own their fit are not affected by anything but being replaced
OwnersKeep == [][\A p \in 1..2 : Is(st.preds[p]) /\ st.preds[p].ref = 0 /\ ~("p" \in DOMAIN last' /\ last'.p = p)
                                 => Is(st'.preds[p]) /\ Transparent(Asked(st', p), "joint") = Transparent(Asked(st, p), "joint")]_vars
\* fitting, updating and predicting change no model, and changing a model changes no fit
ModelsKept == [][last'.op \notin {"set", "note", "new_model", "copy_model", "take_model"} => st'.models = st.models]_vars
FitsKept == [][last'.op \in {"set", "note", "new_model", "copy_model", "take_model", "predict", "predict_fresh", "copy_prediction"} => st'.fits = st.fits]_vars
OneFit == [][\A f \in 1..2 : st'.fits[f] # st.fits[f] => ("f" \in DOMAIN last' /\ last'.f = f) \/ (last'.op = "move_fit" /\ last'.from = f)]_vars
\* a prediction that refers to a fit refers to one that exists
NoDangling == \A p \in 1..2 : Is(st.preds[p]) => (IF st.preds[p].ref = 0 THEN Is(st.preds[p].own) ELSE Is(st.fits[st.preds[p].ref]))
\* a fit made and then updated has seen the same data, in the same order, as one fit to it all
SeesAll == \A f \in 1..2 : Is(st.fits[f]) => Level(st.fits[f]) = Level(Fitted(st.fits[f].fp, Flat(st.fits[f].data)))
=============================================================================
