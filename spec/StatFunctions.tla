---------------------------- MODULE StatFunctions ----------------------------
(***************************************************************************)
(* C28.  The regularised incomplete gamma function                         *)
(*   P(a, z) = z^a e^-z / Gamma(a + 1) * sum_n z^n / ((a+1) .. (a+n)),     *)
(* the chi-squared distribution function P(k/2, x/2), the distance between *)
(* the empirical distribution of samples and the uniform distribution, and *)
(* Gaussian densities, all with 60 digit arithmetic.                       *)
(***************************************************************************)
EXTENDS Real, LinAlg, Verdicts, Gamma, Sequences, Integers, FiniteSets, SequencesExt

Start == [z |-> "0", p |-> "0", any |-> FALSE]

\* numbers below the machine precision count as zero
Eps == RDouble("2.220446049250313e-16")
Value(a, z) == IF RLt(z, Eps) THEN "0" ELSE IF RLt(a, Eps) THEN "1" ELSE P(a, z)
\* what is promised of the double precision result
Growth(a) == IF RLt(a, 10) THEN "0" ELSE RMul(RMul(a, RLog(a)), "1e-15")
Close(got, a, z) ==
  LET want == Value(a, z) IN
  IF ~RIsFinite(got) \/ RLt(got, 0) \/ RLt(1, got) THEN FALSE
  ELSE IF want \in {"0", "1"} THEN RNear(got, want, "0", IF want = "1" /\ RIsFinite(z) THEN RAdd("1e-10", Growth(a)) ELSE "0")
  ELSE IF RLt(RSub(1, "1e-6"), want) THEN RLeq(RAbs(RSub(got, want)), RAdd("5e-7", Growth(a)))
  ELSE RNear(got, want, RAdd("2e-9", Growth(a)), "1e-290")
GammaVerdict(e) ==
  IF RIsNan(e.a) \/ RIsNan(e.z) \/ RLt(e.a, 0) THEN Chk(RIsNan(e.out), "incomplete gamma: outside of the domain")
  ELSE Chk(Close(e.out, e.a, e.z), "incomplete gamma: value")

\* --------------------------------------------------------------- chi-squared
ChiClose(got, x, k) ==
  IF RIsNan(x) \/ RLt(x, 0) THEN RIsNan(got)
  ELSE IF RIsNan(k) \/ RLt(k, 0) THEN TRUE  \* not a number of degrees of freedom
  ELSE IF REq(k, 0) THEN got = RDouble("1") \/ REq(got, 1)
  ELSE IF RLt(x, RMul(2, Eps)) THEN REq(got, 0) \/ (RLeq(Eps, x) /\ Close(got, RDiv(k, 2), RDiv(x, 2)))
  ELSE Close(got, RDiv(k, 2), RDiv(x, 2))
ChiVerdict(e) == Chk(ChiClose(e.out, e.x, e.k), "chi-squared: value (" \o e.form \o ")")
\* along increasing arguments
IncreasingVerdict(e) ==
  Chk(\A i \in 1..Len(e.out) - 1 : RLeq(e.out[i], RAdd(e.out[i + 1], RAdd("1e-12", RMul("4e-9", e.out[i])))) \/ RLt(RSub(1, "1e-6"), e.out[i + 1]),
      "chi-squared: not increasing")
\* the squared distance of a deviation, then its distribution function
Distance(cov, d) == IF d = <<>> THEN "0" ELSE Dot(d, VecSolve(cov, d))
DistanceVerdict(e) ==
  LET s == Distance(e.cov, e.d) k == Len(e.d) lo == RMul(s, "0.999999") hi == RMul(s, "1.000001") IN
  Chk(IF k = 0 THEN REq(e.out, 1)
      ELSE RLeq(0, e.out) /\ RLeq(e.out, 1) /\ RLeq(RSub(Value(RDiv(k, 2), RDiv(lo, 2)), "5e-7"), e.out) /\ RLeq(e.out, RAdd(Value(RDiv(k, 2), RDiv(hi, 2)), "5e-7")),
      "chi-squared: probability of a deviation")
DeviationVerdict(e) ==
  LET s == RDiv(RSq(e.d), e.variance) IN
  Chk(RNear(e.out, Value(RDiv(e.k, 2), RDiv(s, 2)), "1e-8", "5e-7"), "chi-squared: probability of a scalar deviation")

\* ------------------------------------------------------- uniform distribution
AtMost(xs, x) == RDiv(Cardinality({i \in 1..Len(xs) : RLeq(xs[i], x)}), Len(xs))
Below(xs, x) == RDiv(Cardinality({i \in 1..Len(xs) : RLt(xs[i], x)}), Len(xs))
\* the distance is largest at a sample or just before it
Furthest(xs) == FoldLeft(LAMBDA m, x : RMax(m, RMax(RAbs(RSub(AtMost(xs, x), x)), RAbs(RSub(Below(xs, x), x)))), "0", xs)
UniformVerdict(e) ==
  FirstOf(<<Chk(e.after = e.xs, "uniformity: the samples changed"),
            Chk(RNear(e.out, Furthest(e.xs), "1e-12", "1e-15"), "uniformity: distance")>>)

\* --------------------------------------------------------- Gaussian densities
LogPdf(d, v) == RSub(RDiv(RSq(d), RMul(-2, v)), RMul("0.5", RLog(RMul(RMul(2, RPi), v))))
PdfVerdict(e) ==
  FirstOf(<<Chk(RNear(e.log_pdf, LogPdf(e.d, e.v), "1e-13", "1e-13"), "gaussian: logarithm of the density"),
            Chk(RNear(e.pdf, RExp(LogPdf(e.d, e.v)), "1e-11", "1e-300"), "gaussian: density")>>)

Verdict(st, e) ==
  CASE e.op = "gamma" -> GammaVerdict(e)
    [] e.op = "chi" -> ChiVerdict(e)
    [] e.op = "increasing" -> IncreasingVerdict(e)
    [] e.op = "distance" -> DistanceVerdict(e)
    [] e.op = "deviation" -> DeviationVerdict(e)
    [] e.op = "uniform" -> UniformVerdict(e)
    [] e.op = "pdf" -> PdfVerdict(e)
After(st, e) == st
=============================================================================
