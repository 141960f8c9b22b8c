---------------------------- MODULE Distributions ---------------------------
(***************************************************************************)
(* C10.  A distribution is [mean |-> vector, cov |-> matrix]; a marginal   *)
(* distribution has a diagonal covariance.  State: the current             *)
(* distribution and whether it is a joint or a marginal one; every         *)
(* operation of the algebra is a transition whose result is the mean and   *)
(* covariance of the transformed random vector, for independent operands.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts, LinAlg

Dist(m, c) == [mean |-> m, cov |-> c]
N(d) == Len(d.mean)
Plus(x, y) == Dist(VecAdd(x.mean, y.mean), MatAdd(x.cov, y.cov))
Minus(x, y) == Dist(VecSub(x.mean, y.mean), MatAdd(x.cov, y.cov))
Scaled(x, s) == Dist(VecScale(s, x.mean), MatScale(RSq(s), x.cov))
OneBased(idx) == [m \in 1..Len(idx) |-> idx[m] + 1]
Part(x, idx) == LET p == OneBased(idx) IN Dist(SubVec(x.mean, p), SubMat(x.cov, p, p))
Marg(x) == Dist(x.mean, DiagMat(DiagOf(x.cov)))
Linear(A, x) == Dist(MatVec(A, x.mean), MatMul(MatMul(A, x.cov), Transpose(A)))
BlockDiag(A, B) ==
  [i \in 1..(Len(A) + Len(B)) |-> [k \in 1..(Len(A) + Len(B)) |->
     IF i <= Len(A) /\ k <= Len(A) THEN A[i][k]
     ELSE IF i > Len(A) /\ k > Len(A) THEN B[i - Len(A)][k - Len(A)] ELSE "0"]]
Both(x, y) == Dist(x.mean \o y.mean, BlockDiag(x.cov, y.cov))
RECURSIVE AllOf(_)
AllOf(xs) == IF xs = <<>> THEN Dist(<<>>, <<>>) ELSE Both(Head(xs), AllOf(Tail(xs)))
\* overwrite addressed entries of a marginal distribution
RECURSIVE Overwrite(_, _, _, _)
Overwrite(to, idx, from, m) ==
  IF m > Len(idx) THEN to
  ELSE Overwrite(Dist([to.mean EXCEPT ![idx[m] + 1] = from.mean[m]],
                      [to.cov EXCEPT ![idx[m] + 1][idx[m] + 1] = from.cov[m][m]]), idx, from, m + 1)

Same(x, y) == VecNear(x.mean, y.mean, "0", "0") /\ MatNear(x.cov, y.cov, "0", "0")
\* entries of a product may cancel: allow rounding relative to the largest term
BigOf(A) == LET R1(row) == IF row = <<>> THEN "0" ELSE LET f[k \in 0..Len(row)] == IF k = 0 THEN "0" ELSE RMax(f[k - 1], RAbs(row[k])) IN f[Len(row)]
                g[k \in 0..Len(A)] == IF k = 0 THEN "0" ELSE RMax(g[k - 1], R1(A[k])) IN g[Len(A)]
Close(x, y, scale) == /\ VecNear(x.mean, y.mean, "1e-12", RMul("1e-12", scale))
                      /\ MatNear(x.cov, y.cov, "1e-12", RMul("1e-10", scale))
ScaleOf(A, x) == RMul(RMul(RAdd(1, RSq(BigOf(A))), 10), RMul(RAdd(1, N(x)), RAdd(1, RMax(BigOf(x.cov), BigOf(<<x.mean>>)))))

Start == Dist(<<>>, <<>>)
After(st, e) ==
  IF e.op = "start" THEN e.out
  ELSE IF "out" \in DOMAIN e /\ e.op \in {"plus", "minus", "scale", "subset", "marginal", "linear", "concatenate", "set_subset"} THEN e.out
  ELSE st

Verdict(st, e) ==
  CASE e.op = "start" -> ""
    [] e.op = "plus" -> FirstOf(<<Chk(Close(e.out, Plus(st, e.arg), "1"), "sum of distributions (" \o e.kind \o ")"),
                                  Chk(Same(e.left, st) /\ Same(e.right, e.arg), "addition changed an operand")>>)
    [] e.op = "minus" -> FirstOf(<<Chk(Close(e.out, Minus(st, e.arg), "1"), "difference of distributions (" \o e.kind \o ")"),
                                   Chk(Same(e.left, st) /\ Same(e.right, e.arg), "subtraction changed an operand")>>)
    [] e.op = "scale" -> FirstOf(<<Chk(Close(e.out, Scaled(st, e.arg), "1"), "scaled distribution (" \o e.kind \o ")"),
                                   Chk(Same(e.left, st), "scaling changed its operand")>>)
    [] e.op = "subset" -> FirstOf(<<Chk(Same(e.out, IF e.kind = "marginal" THEN Marg(Part(st, e.idx)) ELSE Part(st, e.idx)), "subset of a distribution (" \o e.kind \o ")"),
                                    Chk(Same(e.left, st), "subset changed its operand")>>)
    [] e.op = "marginal" -> Chk(Same(e.out, Marg(st)), "marginal of a joint distribution")
    [] e.op = "set_subset" -> Chk(Same(e.out, Overwrite(st, e.idx, e.arg, 1)), "set_subset of a distribution")
    [] e.op = "linear" -> FirstOf(<<
         Chk(Close(e.out, IF e.to = "joint" THEN Linear(e.A, st) ELSE Marg(Linear(e.A, st)), ScaleOf(e.A, st)),
             "matrix times distribution (" \o e.kind \o " to " \o e.to \o ")"),
         Chk(Same(e.left, st), "multiplication changed its operand")>>)
    [] e.op = "concatenate" -> Chk(Same(e.out, AllOf(e.parts)), "concatenated distributions (" \o e.kind \o ")")
    [] e.op = "element" -> Chk(e.mean = <<st.mean[e.i + 1]>> /\ e.cov = <<<<st.cov[e.i + 1][e.i + 1]>>>>, "element of a distribution")
    [] e.op = "diagonal" -> Chk(REq(e.out, st.cov[e.i + 1][e.i + 1]), "variance of an element")
    [] e.op = "size" -> Chk(e.out = N(st), "size of a distribution")
    [] e.op = "equal" -> Chk(e.out = Same(st, e.arg), "equality of distributions (" \o e.kind \o ")")
    [] e.op = "approx" -> \* |x - y| <= eps min(|x|, |y|), left open where it is within 10% of the bound
         LET far(u, v, f) == RLt(RMul(RMul("1.1", RSq(e.eps)), RMin(Dot(u, u), Dot(v, v))), Dot(VecSub(u, v), VecSub(u, v)))
             near(u, v) == RLt(Dot(VecSub(u, v), VecSub(u, v)), RMul(RMul("0.9", RSq(e.eps)), RMin(Dot(u, u), Dot(v, v)))) \/ VecNear(u, v, "0", "0")
             flat(A) == LET f[k \in 0..Len(A)] == IF k = 0 THEN <<>> ELSE f[k - 1] \o A[k] IN f[Len(A)]
         IN FirstOf(<<
              Chk((far(st.mean, e.arg.mean, 0) \/ far(flat(st.cov), flat(e.arg.cov), 0)) => ~e.out, "approximate equality of distant distributions (" \o e.kind \o ")"),
              Chk((near(st.mean, e.arg.mean) /\ near(flat(st.cov), flat(e.arg.cov))) => e.out, "approximate equality of close distributions (" \o e.kind \o ")")>>)
    [] e.op = "printed" -> \* one line per element: index mean "+/-" deviation, or mean and covariance row
         FirstOf(<<Chk(e.elsewhere = "", "printing a distribution wrote to another stream"),
                   Chk(Len(e.lines) = N(st), "printed lines of a distribution"),
                   Chk(Len(e.lines) = N(st) => \A i \in 1..N(st) :
                        IF e.kind = "joint" THEN VecNear(e.lines[i], <<st.mean[i]>> \o st.cov[i], "1e-5", "0")
                        ELSE VecNear(e.lines[i], <<i - 1, st.mean[i], RSqrt(st.cov[i][i])>>, "1e-5", "0"), "printed distribution")>>)
=============================================================================
