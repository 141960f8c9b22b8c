-------------------------------- MODULE Gamma --------------------------------
(***************************************************************************)
(* The regularised incomplete gamma function                               *)
(*   P(a, z) = z^a e^-z / Gamma(a + 1) * sum_n z^n / ((a+1) .. (a+n))      *)
(* and the error function, to about 25 digits.                             *)
(***************************************************************************)
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Real

Bernoulli == << <<1, 12>>, <<-1, 360>>, <<1, 1260>>, <<-1, 1680>>, <<1, 1188>>, <<-691, 360360>>, <<1, 156>>, <<-3617, 122400>>, <<43867, 244188>>, <<-174611, 125400>> >>
Stirling(x) == \* x >= 30: error below 1e-25
  LET inv == RDiv(1, x) sq == RSq(inv)
      series == FoldLeft(LAMBDA s, b : [sum |-> RAdd(s.sum, RMul(RDiv(b[1], b[2]), s.pow)), pow |-> RMul(s.pow, sq)], [sum |-> "0", pow |-> inv], Bernoulli).sum
  IN RAdd(RSub(RMul(RSub(x, "0.5"), RLog(x)), x), RAdd(RMul("0.5", RLog(RMul(2, RPi))), series))
RECURSIVE LogGamma(_)
LogGamma(x) == IF RLt(x, 30) THEN LET k == 30 - RFloor(x)
                                      shift == FoldLeft(LAMBDA p, i : RMul(p, RAdd(x, i - 1)), "1", [i \in 1..k |-> i])
                                  IN RSub(LogGamma(RAdd(x, k)), RLog(shift))
               ELSE Stirling(x)
RECURSIVE SeriesFrom(_, _, _, _, _)
SeriesFrom(a, z, n, term, sum) ==
  LET t == RDiv(RMul(term, z), RAdd(a, n)) IN
  IF RLt(t, RMul(sum, "1e-25")) THEN sum ELSE SeriesFrom(a, z, n + 1, t, RAdd(sum, t))
Density(a, z) == RExp(RSub(RSub(RMul(a, RLog(z)), z), LogGamma(RAdd(a, 1))))  \* z^a e^-z / Gamma(a+1)
Above(a, z) == RLt(RAdd(RAdd(a, 60), RMul(20, RSqrt(a))), z)  \* 1 - P < 1e-25
P(a, z) ==
  IF RLeq(z, 0) THEN "0" ELSE IF RLeq(a, 0) THEN "1" ELSE IF z = "inf" \/ Above(a, z) THEN "1"
  ELSE RMul(Density(a, z), SeriesFrom(a, z, 1, "1", "1"))
Erf(x) == LET p == P("0.5", RSq(x)) IN IF RLt(x, 0) THEN RNeg(p) ELSE p
=============================================================================
