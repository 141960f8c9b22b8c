------------------------- MODULE MC_GaussianProcess -------------------------
(***************************************************************************)
(* A process at three places, conditioned one measurement at a time by the *)
(* textbook rank-one update of the joint distribution of the latent values *)
(* and of what only measurements contain.  Whatever the order and number   *)
(* of measurements, and with the process replaced at any time by its own   *)
(* prediction, this is what GaussianProcess.tla predicts in one go.        *)
(***************************************************************************)
EXTENDS GaussianProcess, Json, IOUtils, SequencesExt
CONSTANTS MaxSteps, MaxGen
D(x) == [t |-> "d", x |-> x]
X == <<-1, 0, 2>>
Places == [i \in 1..3 |-> D(ToString(X[i]))]
Lf(k, p) == [k |-> k, p |-> <<<<k, p>>>>, name |-> k]
Sum2(l, r) == [k |-> "sum", l |-> l, r |-> r, name |-> "sum"]
Latent == Sum2(Lf("cross", "1/2"), Sum2(Lf("const", "2"), Lf("nugget", "1")))
Extra == [Lf("nugget", "3/2") EXCEPT !.p = <<<<"extra", "3/2">>>>]
Expr == Sum2(Latent, [k |-> "meas", of |-> Extra, name |-> "m"])
MeanExpr == [k |-> "linear", p |-> <<<<"slope", "1/2">>, <<"offset", "1">>>>, name |-> "linear"]

Splits(n) == {s \in UNION {[1..k -> 1..n] : k \in 1..n} : FoldLeft(LAMBDA a, b : a + b, 0, s) = n}
Inputs == UNION {{[xs |-> p, sizes |-> s] : p \in [1..n -> {-1, 0, 2}], s \in Splits(n)} : n \in 1..MaxGen}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))

VARIABLES st, mean, cov, left
vars == <<st, mean, cov, left>>
Z3 == ZeroMat(3, 3)
Blocks(A, B, C, E) == VCat(HCat(A, B), HCat(C, E))
Init == /\ st = [Start EXCEPT !.cov = Expr, !.mean = MeanExpr, !.fcov = Expr, !.fmean = MeanExpr]
        /\ mean = MeanVector(MeanExpr, Places) \o Zeros(3)
        /\ cov = Blocks(Gram(Latent, Places), Z3, Z3, Gram(Extra, Places))
        /\ left = MaxSteps
\* y = value at place i + what only a measurement of place i contains + noise
Observe(i, y, noise) ==
  LET h == [n \in 1..6 |-> IF n = i \/ n = i + 3 THEN "1" ELSE "0"]
      c == MatVec(cov, h)
      s == RAdd(Dot(h, c), noise)
  IN /\ mean' = VecAdd(mean, VecScale(RDiv(RSub(y, Dot(h, mean)), s), c))
     /\ cov' = MatSub(cov, MatScale(RDiv("1", s), Outer(c, c)))
     /\ st' = After(st, [op |-> "update", xs |-> <<Places[i]>>, y |-> <<y>>, noise |-> <<noise>>])
Rebase ==
  /\ mean' = SubSeq(mean, 1, 3) \o Zeros(3)
  /\ cov' = Blocks(SubMat(cov, <<1, 2, 3>>, <<1, 2, 3>>), Z3, Z3, Gram(Extra, Places))
  /\ st' = After(st, [op |-> "from_prediction", u |-> Places, mean |-> SubSeq(mean, 1, 3), cov |-> SubMat(cov, <<1, 2, 3>>, <<1, 2, 3>>)])
Next == /\ left > 0 /\ left' = left - 1
        /\ \/ \E i \in 1..3, o \in {<<"3", "1/4">>, <<"-1", "2">>} : Observe(i, o[1], o[2])
           \/ Rebase
Near(a, b) == JointNear(a, b, "1e-15", "1e-15")
Now == [mean |-> SubSeq(mean, 1, 3), cov |-> SubMat(cov, <<1, 2, 3>>, <<1, 2, 3>>)]
SameAsBatch == Near(Predicted(st, Places), Now)
Measurements == Near(Predicted(st, Measured(Places)), [Now EXCEPT !.cov = MatAdd(@, Gram(Extra, Places))])
NoBaseIsPosterior == st.base.u = <<>> => Near(Predicted(st, Places), Posterior(Expr, MeanExpr, st.data, Places))
\* learning never makes anything less certain
MoreCertain == [][\A i \in 1..3 : RLeq(cov'[i][i], RAdd(cov[i][i], "1e-20"))]_vars
Symmetric == \A i, k \in 1..6 : RNear(cov[i][k], cov[k][i], "1e-20", "1e-20")
=============================================================================
