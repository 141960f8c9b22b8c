--------------------------- MODULE MC_StatFunctions ---------------------------
(***************************************************************************)
(* Walks over degrees of freedom and arguments and checks the definition   *)
(* against closed forms and recurrences that do not use the series, and    *)
(* the uniform distance against the distance on a grid.                    *)
(***************************************************************************)
EXTENDS StatFunctions, Json, IOUtils, TLC
CONSTANTS MaxK, MaxZ, MaxSamples
Half(k) == RDiv(k, 2)
Samples == UNION {[1..n -> {RDiv(m, 8) : m \in {0, 1, 3, 4, 6, 8}}] : n \in 0..MaxSamples}
Inputs == {[kind |-> "uniform", xs |-> xs] : xs \in Samples} \cup
          {[kind |-> "chi", k |-> k, x |-> x] : k \in 0 .. MaxK, x \in {RDiv(m, 2) : m \in 0 .. 2 * MaxZ}}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))
Near(a, b) == RNear(a, b, "1e-22", "1e-24")
VARIABLES k, z, p    \* p = P(k/2, z), moved along by the recurrence in k
vars == <<k, z, p>>
Init == k = 2 /\ \E m \in 1 .. MaxZ : z = RDiv(m, 2) /\ p = RSub(1, RExp(RNeg(z)))  \* P(1, z)
Next == k < MaxK /\ k' = k + 2 /\ z' = z /\ p' = RSub(p, Density(Half(k), z))
Closed == Near(P(Half(k), z), p)
Ordered == /\ RLeq(0, p) /\ RLeq(p, 1)
           /\ RLt(P(Half(k), z), P(Half(k), RAdd(z, "0.125")))
           /\ RLt(P(Half(k + 1), z), P(Half(k), z)) /\ RLt(P(Half(k), z), P(Half(k - 1), z))
Recurrence == Near(P(Half(k + 1), z), RSub(P(Half(k - 1), z), Density(Half(k - 1), z)))
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN "1" ELSE RMul(n, Fact(n - 1))
ASSUME \A n \in 1..40 : Near(LogGamma(n), RLog(Fact(n - 1)))
ASSUME Near(RMul(2, LogGamma("0.5")), RLog(RPi))
ASSUME \A m \in {1, 3, 10, 31, 77} : LET x == RDiv(m, 10) IN Near(RAdd(LogGamma(x), LogGamma(RAdd(x, "0.5"))), \* duplication
         RAdd(RMul(RSub(1, RMul(2, x)), RLog(2)), RAdd(RMul("0.5", RLog(RPi)), LogGamma(RMul(2, x)))))
\* the distance of the two distributions on a fine grid and just before it
OnGrid(xs) == FoldLeft(LAMBDA m, i : LET g == RDiv(i, 16) IN RMax(m, RMax(RAbs(RSub(AtMost(xs, g), g)), RAbs(RSub(Below(xs, g), g)))), "0", [i \in 1..17 |-> i - 1])
ASSUME \A xs \in {s \in Samples : Len(s) > 0} : OnGrid(xs) = Furthest(xs)
=============================================================================
