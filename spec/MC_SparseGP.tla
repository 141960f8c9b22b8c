----------------------------- MODULE MC_SparseGP -----------------------------
(***************************************************************************)
(* A sparse process at three places seen through inducing points, learning *)
(* one group at a time by the update of its weights in information form:   *)
(*   S' = (S^-1 + cov(u, g) A^-1 cov(g, u))^-1                             *)
(* and being re-based at any time.  It is what SparseGP.tla predicts from  *)
(* the covariance of all measurements at once; with inducing points at all *)
(* places it is the exact process.                                         *)
(***************************************************************************)
EXTENDS SparseGP, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxSteps, MaxGen
D(x) == [t |-> "d", x |-> x]
Places == <<D("-1"), D("0"), D("2")>>
Lf(k, p) == [k |-> k, p |-> <<<<k, p>>>>, name |-> k]
Sum2(l, r) == [k |-> "sum", l |-> l, r |-> r, name |-> "sum"]
Latent == Sum2(Lf("cross", "1/2"), Sum2(Lf("const", "2"), Lf("nugget", "1")))
Extra == [Lf("nugget", "3/2") EXCEPT !.p = <<<<"extra", "3/2">>>>]
Expr == Sum2(Latent, [k |-> "meas", of |-> Extra, name |-> "m"])
MeanExpr == [k |-> "linear", p |-> <<<<"slope", "1/2">>, <<"offset", "1">>>>, name |-> "linear"]

\* every grouping of a few measurements, in one or two batches
Labels(n) == {g \in [1..n -> 1..n] : \A i \in 1..n : g[i] = 1 \/ \E k \in 1..(i - 1) : g[k] >= g[i] - 1}
Inputs == UNION {{[group |-> g, first |-> k] : g \in Labels(n), k \in 1..n} : n \in 1..MaxGen}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))

VARIABLES st, v, S, left
vars == <<st, v, S, left>>
Us == {<<Places[1]>>, <<Places[1], Places[3]>>, Places}
F == st.fit
Init == /\ \E u \in Us : st = LET s == [Start EXCEPT !.cov = Expr, !.mean = MeanExpr, !.inner = "0", !.outer = "0"] IN
                              [s EXCEPT !.fit = [Fitted(s, [u |-> u, xs |-> <<>>, y |-> <<>>, noise |-> <<>>, group |-> <<>>]) EXCEPT !.data = NoData]]
        /\ v = Zeros(Len(F.u)) /\ S = F.S0 /\ left = MaxSteps
Groups == {[xs |-> <<Places[1]>>, y |-> <<"3">>, noise |-> <<"1/4">>, group |-> <<1>>],
           [xs |-> <<Places[2], Places[3]>>, y |-> <<"-1", "2">>, noise |-> <<"2", "1/2">>, group |-> <<1, 1>>],
           [xs |-> <<Places[3], Places[3]>>, y |-> <<"1", "4">>, noise |-> <<"1", "1">>, group |-> <<1, 1>>]}
Invert(A) == MatSolve(A, Identity(Len(A)))
Learn(g) ==
  LET m == Measured(g.xs) A == Unexplained(F, g) C == Kux(F, m)
      S2 == Invert(MatAdd(Invert(S), MatMul(C, MatSolve(A, Transpose(C)))))
      r == VecSub(g.y, MeanVector(MeanExpr, m))
  IN /\ S' = S2
     /\ v' = MatVec(S2, VecAdd(VecSolve(S, v), MatVec(C, VecSolve(A, r))))
     /\ st' = After(st, [op |-> "update", xs |-> g.xs, y |-> g.y, noise |-> g.noise, group |-> g.group])
Rebase(u) ==
  LET s2 == After(st, [op |-> "rebase", u |-> u]) IN st' = s2 /\ v' = s2.fit.v0 /\ S' = s2.fit.S0
Next == /\ left > 0 /\ left' = left - 1
        /\ \/ \E g \in Groups : Learn(g)
           \/ \E u \in Us : Rebase(u)
All == Places \o Measured(Places)
FromWeights(xs) ==
  [mean |-> VecAdd(MeanVector(MeanExpr, xs), MatVec(Transpose(Kux(F, xs)), v)),
   cov |-> MatAdd(MatSub(Gram(Expr, xs), Explained(F, xs, KuuPredict(F))), MatMul(Transpose(Kux(F, xs)), MatMul(S, Kux(F, xs))))]
Near(a, b) == JointNear(a, b, "1e-15", "1e-15")
SameAsAtOnce == Near(Predicted(F, All), FromWeights(All))
\* what only measurements contain is shared by measurements of one place, unless they are of different groups
Apart(d) == \A i, k \in 1..Len(d.xs) : d.xs[i] = d.xs[k] => d.group[i] = d.group[k]
Exact == (F.u = Places /\ ~F.based /\ Apart(F.data)) => Near(Predicted(F, Places), Posterior(Expr, MeanExpr, F.data, Places))
\* re-basing keeps what is predicted at the new inducing points
RebaseKeeps == [][\A u \in Us : (st'.fit.u = u /\ st'.fit.based /\ st'.fit.data.xs = <<>>) => Near(Predicted(st'.fit, u), Predicted(F, u))]_vars
Symmetric == \A i, k \in 1..Len(S) : RNear(S[i][k], S[k][i], "1e-20", "1e-20")
=============================================================================
