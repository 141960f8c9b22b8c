---------------------------- MODULE MC_Chebyshev ----------------------------
(* The recurrence as a state machine (two running terms); checked against   *)
(* closed identities of the polynomials on a grid of rationals.             *)
EXTENDS Chebyshev, Json, IOUtils, SequencesExt
CONSTANT MaxN
Grid == {RDiv(m, 8) : m \in -8..8}
Inputs == {[n |-> n, x |-> SetToSeq(Grid)] : n \in 0..MaxN} \cup {[n |-> n, x |-> <<>>] : n \in 0..3} \cup
          {[n |-> n, x |-> <<g>>] : n \in 0..6, g \in Grid}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))
VARIABLES x, n, t, t1, u, u1
vars == <<x, n, t, t1, u, u1>>
Init == x \in Grid /\ n = 1 /\ t1 = "1" /\ t = R(x) /\ u1 = "1" /\ u = RMul(2, x)
Next == /\ n < MaxN /\ n' = n + 1 /\ x' = x
        /\ t' = RSub(RMul(RMul(2, x), t), t1) /\ t1' = t
        /\ u' = RSub(RMul(RMul(2, x), u), u1) /\ u1' = u
Agrees == t = UpTo("T", n, x)[n + 1] /\ u = UpTo("U", n, x)[n + 1]
Near(a, b) == RNear(a, b, "0", "1e-40")
Pell == \* T_n^2 - (x^2 - 1) U_{n-1}^2 = 1
  Near(RSub(RSq(t), RMul(RSub(RSq(x), 1), RSq(u1))), 1)
Mixed == Near(t, RSub(u, RMul(x, u1)))
Bounded == RLeq(RAbs(t), RAdd(1, "1e-40")) /\ RLeq(RAbs(u), RAdd(n + 1, "1e-40"))
Ends == (x = "1" => t = "1" /\ u = R(n + 1)) /\ (x = "0" => (n % 2 = 1 => t = "0" /\ u = "0"))
=============================================================================
