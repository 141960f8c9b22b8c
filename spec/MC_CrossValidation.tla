------------------------- MODULE MC_CrossValidation -------------------------
(***************************************************************************)
(* Leaving groups out without refitting: after factoring once, every group *)
(* is visited in any order and its held out prediction read off the block  *)
(* of the inverse; the flattened prediction is filled in as groups come.   *)
(***************************************************************************)
EXTENDS CrossValidation, Json, IOUtils
CONSTANTS N, MaxGen
D(x) == [t |-> "d", x |-> x]
Xs == SubSeq(<<D("-1"), D("0"), D("2"), D("0"), D("5")>>, 1, N)
Lf(k, p) == [k |-> k, p |-> <<<<k, p>>>>, name |-> k]
Sum2(l, r) == [k |-> "sum", l |-> l, r |-> r, name |-> "sum"]
Expr == Sum2(Sum2(Lf("cross", "1/2"), Lf("const", "2")), [k |-> "meas", of |-> Lf("nugget", "3/2"), name |-> "m"])
MeanExpr == [k |-> "linear", p |-> <<<<"slope", "1/2">>, <<"offset", "1">>>>, name |-> "linear"]
Data == [xs |-> Xs, y |-> SubSeq(<<"3", "-1", "4", "1", "-5">>, 1, N), noise |-> SubSeq(<<"1/2", "1", "3/2", "1/4", "2">>, 1, N)]

Inputs == UNION {{[keys |-> k] : k \in [1..n -> 0..2]} : n \in 1..MaxGen}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))

VARIABLES st, phase, inv, info, left, flat, seen
vars == <<st, phase, inv, info, left, flat, seen>>
Init == \E keys \in [1..N -> 0..2] :
        /\ st = After([Start EXCEPT !.model = "gp", !.cov = Expr, !.mean = MeanExpr, !.data = Data], [op |-> "keys", keys |-> keys])
        /\ phase = "start" /\ inv = <<>> /\ info = <<>> /\ seen = <<>>
        /\ left = DOMAIN ByKey(keys)
        /\ flat = [mean |-> [i \in 1..N |-> "none"], var |-> [i \in 1..N |-> "none"]]
Factor == /\ phase = "start" /\ phase' = "visit"
          /\ inv' = Inverse(TrainCov(st.cov, st.data))
          /\ info' = VecSolve(TrainCov(st.cov, st.data), Residual(st.mean, st.data))
          /\ UNCHANGED <<st, left, flat, seen>>
Visit(g) ==
  LET idx == st.groups[g].idx A == SubMat(inv, idx, idx)
      mean == VecSub(SubVec(st.data.y, idx), VecSolve(A, SubVec(info, idx)))
      cov == Inverse(A) IN
  /\ phase = "visit" /\ left' = left \ {g}
  /\ seen' = <<[g |-> g, mean |-> mean, cov |-> cov]>>
  /\ flat' = [mean |-> [i \in 1..N |-> IF i \in RangeOf(idx) THEN mean[PlaceOf(idx, i)] ELSE flat.mean[i]],
              var |-> [i \in 1..N |-> IF i \in RangeOf(idx) THEN cov[PlaceOf(idx, i)][PlaceOf(idx, i)] ELSE flat.var[i]]]
  /\ UNCHANGED <<st, phase, inv, info>>
Next == Factor \/ \E g \in left : Visit(g)
T == "1e-18"
BlockIsConditional == \A i \in 1..Len(seen) : JointNear(seen[i], Folds(st, "closed")[seen[i].g], T, T)
\* the mean is the refit's: nothing in a measurement's noise says anything about the others (no repeated places)
MeanIsRefit == \A i \in 1..Len(seen) :
  (\A a, b \in 1..N : a # b => Xs[a] # Xs[b]) => VecNear(seen[i].mean, Refit(st, st.groups[seen[i].g].idx).mean, T, T)
FlatWhenDone == (left = {} /\ phase = "visit") =>
  LET f == Flattened(st, Folds(st, "closed"), N) IN
  VecNear(flat.mean, f.mean, T, T) /\ VecNear(flat.var, f.var, T, T)
Partition == /\ \A i \in 1..N : Cardinality({g \in 1..Len(st.groups) : i \in RangeOf(st.groups[g].idx)}) = 1
             /\ \A g \in 1..(Len(st.groups) - 1) : st.groups[g].k < st.groups[g + 1].k
=============================================================================
