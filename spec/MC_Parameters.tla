--------------------------- MODULE MC_Parameters ----------------------------
(***************************************************************************)
(* Two holders, at most two names, a few values (inside, on and outside of *)
(* the bounds) and priors.  Every history of MaxLen operations; each one   *)
(* is an input for the code.  Invariants: frame condition, reading returns *)
(* the last write, packing and unpacking, clamping, validity.              *)
(***************************************************************************)
EXTENDS Parameters, Json, IOUtils, SequencesExt
CONSTANTS MaxLen
P(t) == [t |-> t, a |-> "0", b |-> "1"]
Priors == {[t |-> "fixed", a |-> "0", b |-> "0"], P("uniform"), [t |-> "uninformative", a |-> "0", b |-> "0"]}
Vals == {"0", "1", "2"}
Rec(n, v, p) == [n |-> n, v |-> v, p |-> p]
Init0 == << <<Rec("a", "1", P("uniform")), Rec("b", "2", [t |-> "fixed", a |-> "0", b |-> "0"])>>,
            <<Rec("a", "0", P("uniform")), Rec("b", "1", P("uniform"))>> >>
Lists == {<<>>, <<Rec("b", "0", P("uniform"))>>, <<Rec("a", "2", P("uniform")), Rec("b", "1", P("uniform"))>>, <<Rec("b", "1", P("uniform")), Rec("z", "1", P("uniform"))>>}
E(op, h) == [op |-> op, h |-> h]
Events ==
  UNION {{E("set_param", h) @@ [n |-> n, v |-> "2", p |-> p] : n \in {"a", "z"}, p \in Priors} \cup
         {E("set_value", h) @@ [n |-> n, v |-> v] : n \in {"a", "b", "z"}, v \in Vals} \cup
         {E("set_prior", h) @@ [n |-> n, p |-> p] : n \in {"b", "z"}, p \in Priors} \cup
         {E("set_value_if_exists", h) @@ [n |-> n, v |-> "0"] : n \in {"b", "z"}} \cup
         {E(o, h) @@ [l |-> l] : o \in {"set_params", "set_values", "set_params_if_exists", "set_values_if_exists"}, l \in Lists} \cup
         {E("copy", h) @@ [from |-> 3 - h]} \cup
         {E("set_tunable", h) @@ [x |-> x, force |-> f] : x \in {<<>>, <<"2">>, <<"-1", "0.5">>}, f \in BOOLEAN} : h \in 1..2}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[start |-> Init0, ops |-> <<x, y>>] : x \in Events, y \in Events}))
VARIABLES st, k, last
vars == <<st, k, last>>
Init == st = Init0 /\ k = 0 /\ last = [op |-> "none", h |-> 1]
Next == k < MaxLen /\ \E e \in Events : ~Rejects(st, e) /\ st' = Apply(st, e) /\ last' = e /\ k' = k + 1
NamesNeverChange == \A h \in 1..2 : [m \in DOMAIN st[h] |-> st[h][m].n] = <<"a", "b">>
Frame == [][st'[3 - last'.h] = st[3 - last'.h]]_vars
OneName == [][last'.op \in {"set_param", "set_value", "set_prior", "set_value_if_exists"} =>
                \A m \in DOMAIN st[last'.h] : st[last'.h][m].n # last'.n => st'[last'.h][m] = st[last'.h][m]]_vars
LastWrite == last.op \in {"set_param", "set_value"} => At(st[last.h], last.n).v = last.v
FixedKept == [][last'.op = "set_tunable" => \A m \in DOMAIN st[last'.h] : Fixed(st[last'.h][m].p) => st'[last'.h][m] = st[last'.h][m]]_vars
ForcedInside == last.op = "set_tunable" /\ last.force => \A m \in DOMAIN st[last.h] : Fixed(st[last.h][m].p) \/ Inside(st[last.h][m])
PackUnpack == \A h \in 1..2 : LET f == Free(st[h]) x == [m \in DOMAIN f |-> Packed(f[m])]
                              IN Exactly(Unpacked(st[h], x, FALSE), st[h]) /\ (Valid(f) => Exactly(Unpacked(st[h], x, TRUE), st[h]))
ValidMeansTunable == \A h \in 1..2 : Valid(st[h]) => ~Rejects(st, [op |-> "tunable", h |-> h])
OutsideHasNoDensity == \A h \in 1..2 : \A m \in DOMAIN st[h] : ~Inside(st[h][m]) => LogPdf(st[h][m].p, st[h][m].v) = "-inf"
=============================================================================
