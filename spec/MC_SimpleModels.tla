--------------------------- MODULE MC_SimpleModels ---------------------------
(***************************************************************************)
(* A small Gaussian conditioned on every list of its own variables, one    *)
(* variable at a time: conditioning step by step equals conditioning at    *)
(* once in any order; what is observed without noise is predicted exactly; *)
(* variances never grow.  Lines through all small point sets: the normal   *)
(* equations' solution beats every other small line.  Emitted: the lists.  *)
(***************************************************************************)
EXTENDS SimpleModels, Json, IOUtils, SequencesExt
CONSTANTS N
RECURSIVE Lists(_)
Lists(s) == {<<>>} \cup UNION {{<<x>> \o l : l \in Lists(s \ {x})} : x \in s}
Orders == Lists(0..(N - 1))
Points == {<<a, b, c>> : a \in {0, 1}, b \in {2, 3}, c \in {-1, 4}} \cup {<<0, 1>>, <<2, 5>>}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[train |-> t, n |-> N] : t \in Orders}))

Noises == {[i \in 1..N |-> 0], [i \in 1..N |-> i]}
CovM == [i \in 1..N |-> [k \in 1..N |-> IF i = k THEN i + 3 ELSE IF (i + k) % 2 = 0 THEN 1 ELSE -1]]
VARIABLES st, post
vars == <<st, post>>
Init == \E nz \in Noises :
          /\ st = [kind |-> "gaussian", mean |-> [i \in 1..N |-> i], cov |-> CovM, y |-> [i \in 1..N |-> 2 * i - 3], noise |-> nz, train |-> <<>>]
          /\ post = [mean |-> [i \in 1..N |-> i], cov |-> CovM]
\* observe variable v of the current distribution
Observe(v) ==
  LET i == v + 1 s == RAdd(post.cov[i][i], st.noise[i])
      g == [k \in 1..N |-> RDiv(post.cov[k][i], s)]
  IN /\ post' = [mean |-> VecAdd(post.mean, VecScale(RSub(st.y[i], post.mean[i]), g)), cov |-> MatSub(post.cov, MatScale(s, Outer(g, g)))]
     /\ st' = [st EXCEPT !.train = Append(@, v)]
Next == \E v \in (0..(N - 1)) \ RangeOf(st.train) : Observe(v)
All == [n \in 1..N |-> n - 1]
StepByStep == JointNear(post, CondAt(st, All), "1e-12", "1e-12")
Exact == \A v \in RangeOf(st.train) : (st.noise[v + 1] = 0) => RNear(post.mean[v + 1], st.y[v + 1], "1e-12", "1e-12") /\ RNear(post.cov[v + 1][v + 1], 0, "0", "1e-12")
Shrinks == \A n \in 1..N : RLeq(post.cov[n][n], RAdd(CovM[n][n], "1e-12"))
LineOf(p, y) == Normal([i \in 1..Len(p) |-> <<1, p[i]>>], y)
Cost(p, y, c) == RSum([i \in 1..Len(p) |-> RSq(RSub(y[i], RAdd(c[1], RMul(c[2], p[i]))))])
Ys(n) == [1..n -> {-1, 0, 2}]
Best == st.train = <<>> =>
  \A p \in Points : \A y \in Ys(Len(p)) :
    LET c == LineOf(p, y) IN
    /\ Minimizes([i \in 1..Len(p) |-> <<1, p[i]>>], y, c)
    /\ \A a, b \in {-1, 0, 1} : RLeq(Cost(p, y, c), RAdd(Cost(p, y, <<a, b>>), "1e-12"))
=============================================================================
