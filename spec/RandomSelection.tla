--------------------------- MODULE RandomSelection ---------------------------
(***************************************************************************)
(* C27.  A random selection of n out of a collection is a set of n         *)
(* different positions, every such set equally likely.  A single selection *)
(* is judged alone; how often each was selected is collected in st.seen    *)
(* and judged when the draws are counted.  Random matrices and vectors are *)
(* the stated functions of independent standard draws.                     *)
(***************************************************************************)
EXTENDS Real, LinAlg, Verdicts, Sequences, Integers, FiniteSets, SequencesExt, FiniteSetsExt

Start == [seen |-> <<>>, n |-> 0, low |-> 0, high |-> 0]

Distinct(s) == Cardinality(ToSet(s)) = Len(s)
\* how many of x are in s
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})

\* e.out: positions selected among low .. high (in any order)
PositionsVerdict(e) ==
  IF e.stopped THEN Chk(e.n > e.high - e.low + 1, "positions: a valid request was refused")
  ELSE FirstOf(<<Chk(e.n <= e.high - e.low + 1, "positions: more positions than there are"),
                 Chk(Len(e.out) = e.n, "positions: number of positions"),
                 Chk(Distinct(e.out), "positions: one was selected twice"),
                 Chk(\A i \in 1..Len(e.out) : e.low <= e.out[i] /\ e.out[i] <= e.high, "positions: outside of the range")>>)
\* the same, of more positions than TLC counts to: written as text.  Many come from all over the range
FarVerdict(e) ==
  LET third(k) == RAdd(e.low, RMul(RDiv(k, 3), RSub(e.high, e.low))) IN
  FirstOf(<<Chk(Len(e.out) = e.n, "positions: number of positions"),
            Chk(Distinct(e.out), "positions: one was selected twice"),
            Chk(\A i \in 1..Len(e.out) : RLeq(e.low, e.out[i]) /\ RLeq(e.out[i], e.high), "positions: outside of the range"),
            Chk(e.n < 100 \/ \A k \in 1..3 : \E i \in 1..Len(e.out) : RLeq(third(k - 1), e.out[i]) /\ RLeq(e.out[i], third(k)), "positions: none from a third of the range")>>)
\* e.out: elements selected from the collection e.xs
ElementsVerdict(e) ==
  IF e.stopped THEN Chk(e.n > Len(e.xs), "elements: a valid request was refused")
  ELSE FirstOf(<<Chk(e.n <= Len(e.xs), "elements: more elements than there are"),
                 Chk(Len(e.out) = e.n, "elements: number of elements"),
                 Chk(\A x \in ToSet(e.out) : Count(e.out, x) <= Count(e.xs, x), "elements: one was selected twice or is not in the collection"),
                 Chk(e.xs_after = e.xs, "elements: the collection changed")>>)

\* ------------------------------------------------------- many selections
\* e.sets: the sets that were selected in consecutive draws, with their counts
RECURSIVE Choose(_, _)
Choose(n, k) == IF k = 0 THEN 1 ELSE (Choose(n, k - 1) * (n - k + 1)) \div k
Total(e) == FoldLeft(LAMBDA s, x : s + x[2], 0, e.sets)
Likely(count, total, outcomes) == \* within eight standard deviations
  LET mean == RDiv(total, outcomes) IN
  RLeq(RAbs(RSub(count, mean)), RAdd("8", RMul("8", RSqrt(mean))))
CountVerdict(e) ==
  LET c == e.high - e.low + 1 outcomes == Choose(c, IF 2 * e.n > c THEN c - e.n ELSE e.n) total == Total(e) IN
  FirstOf(<<Chk(\A i \in 1..Len(e.sets) : Cardinality(ToSet(e.sets[i][1])) = e.n /\ ToSet(e.sets[i][1]) \subseteq e.low .. e.high, "counts: not a selection"),
            Chk(total >= 100 * outcomes => Len(e.sets) = outcomes, "counts: some selections are never made"),
            Chk(\A i \in 1..Len(e.sets) : Likely(e.sets[i][2], total, outcomes), "counts: some selections are made too often or too rarely")>>)

\* ------------------------------------------------------------ random values
\* moments of many independent draws (mean, sd given): within 8 standard errors
Sum(v) == FoldLeft(LAMBDA s, x : RAdd(s, x), "0", v)
Mean(v) == RDiv(Sum(v), Len(v))
Var(v, m) == RDiv(FoldLeft(LAMBDA s, x : RAdd(s, RSq(RSub(x, m))), "0", v), Len(v))
FillVerdict(e) ==
  LET n == Len(e.out) se == RDiv(e.sd, RSqrt(n)) IN
  FirstOf(<<Chk(n = e.rows * e.cols, "fill: number of values"),
            Chk(n >= 200 => RLeq(RAbs(RSub(Mean(e.out), e.mean)), RMul(8, se)), "fill: mean"),
            Chk(n >= 200 => RLeq(RAbs(RSub(Var(e.out, e.mean), RSq(e.sd))), RMul(RMul(12, e.sd), se)), "fill: variance"),
            Chk(Distinct(e.out), "fill: draws repeat"),
            Chk(e.again = e.out, "fill: equal generators give different values"),
            Chk(~e.advances \/ ToSet(e.next) \cap ToSet(e.out) = {}, "fill: consecutive draws are equal")>>)
\* e.out = mean + L z with L L' = cov, z the draws of an equal generator
RECURSIVE RowDot(_, _, _)
RowDot(a, b, k) == IF k = 0 THEN "0" ELSE RAdd(RMul(a[k], b[k]), RowDot(a, b, k - 1))
LowerTimes(L, z) == [i \in 1..Len(z) |-> RowDot(L[i], z, i)]
RECURSIVE CholRow(_, _, _, _)
CholRow(a, L, i, row) == \* the i-th row of the factor, given the ones above
  LET k == Len(row) + 1 IN
  IF k > i THEN row
  ELSE IF k = i THEN Append(row, RSqrt(RSub(a[i][i], RowDot(row, row, i - 1))))
  ELSE CholRow(a, L, i, Append(row, RDiv(RSub(a[i][k], RowDot(row, L[k], k - 1)), L[k][k])))
RECURSIVE CholFrom(_, _)
CholFrom(a, L) == IF Len(L) = Len(a) THEN L ELSE CholFrom(a, Append(L, CholRow(a, L, Len(L) + 1, <<>>)))
Factor(a) == CholFrom(a, <<>>)
NormalVerdict(e) ==
  LET x == LowerTimes(Factor(e.cov), e.z) IN
  FirstOf(<<Chk(Len(e.out) = Len(e.mean), "normal: size"),
            Chk(Len(e.out) = Len(e.mean) => \A i \in 1..Len(x) : RNear(e.out[i], RAdd(e.mean[i], x[i]), "0", RMul("1e-9", RAdd(RAbs(e.mean[i]), RMul(10, RSqrt(e.cov[i][i]))))), "normal: not the mean plus the root of the covariance times standard draws"),
            Chk(e.next # e.out, "normal: consecutive draws are equal")>>)
\* a covariance with the drawn values as its eigen values
Trace(a) == FoldLeft(LAMBDA s, i : RAdd(s, a[i][i]), "0", [i \in 1..Len(a) |-> i])
Square(a) == FoldLeft(LAMBDA s, i : RAdd(s, RowDot(a[i], a[i], Len(a))), "0", [i \in 1..Len(a) |-> i])
LogDetOf(a) == LET L == Factor(a) IN RMul(2, FoldLeft(LAMBDA s, i : RAdd(s, RLog(L[i][i])), "0", [i \in 1..Len(a) |-> i]))
SumSquares(v) == RowDot(v, v, Len(v))
CovarianceVerdict(e) ==
  LET k == Len(e.values) IN
  FirstOf(<<Chk(Len(e.out) = k /\ \A i \in 1..Len(e.out) : Len(e.out[i]) = k, "covariance: shape"),
            Chk(\A i, j \in 1..k : RNear(e.out[i][j], e.out[j][i], "0", RMul("1e-12", Sum(e.values))), "covariance: not symmetric"),
            Chk(RNear(Trace(e.out), Sum(e.values), "1e-10", "0"), "covariance: the sum of eigen values"),
            Chk(RNear(Square(e.out), SumSquares(e.values), "1e-10", "0"), "covariance: the squares of eigen values"),
            Chk(RNear(LogDetOf(e.out), FoldLeft(LAMBDA s, x : RAdd(s, RLog(x)), "0", e.values), "1e-7", "1e-7"), "covariance: the product of eigen values"),
            Chk(e.next # e.out, "covariance: consecutive draws are equal")>>)
SparseVerdict(e) ==
  FirstOf(<<Chk(e.shape = <<e.rows, e.cols>>, "sparse: shape"),
            Chk(Len(e.entries) = RFloor(RMul(RMul(e.rows, e.cols), e.fill)), "sparse: number of entries"),
            Chk(Distinct([i \in 1..Len(e.entries) |-> <<e.entries[i][1], e.entries[i][2]>>]), "sparse: a position was filled twice"),
            Chk(\A i \in 1..Len(e.entries) : e.entries[i][1] \in 0 .. e.rows - 1 /\ e.entries[i][2] \in 0 .. e.cols - 1
                  /\ RLeq(e.min, e.entries[i][3]) /\ RLeq(e.entries[i][3], e.max), "sparse: an entry"),
            Chk(e.again = e.entries, "sparse: equal generators give different values")>>)

Verdict(st, e) ==
  CASE e.op = "positions" -> PositionsVerdict(e)
    [] e.op = "far_positions" -> FarVerdict(e)
    [] e.op = "elements" -> ElementsVerdict(e)
    [] e.op = "counts" -> CountVerdict(e)
    [] e.op = "repeat" -> Chk(e.a = e.b, "equal generators give different selections")
    [] e.op = "fill" -> FillVerdict(e)
    [] e.op = "normal" -> NormalVerdict(e)
    [] e.op = "covariance" -> CovarianceVerdict(e)
    [] e.op = "sparse" -> SparseVerdict(e)
After(st, e) == st
=============================================================================
