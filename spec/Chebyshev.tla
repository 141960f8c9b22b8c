------------------------------ MODULE Chebyshev -----------------------------
(***************************************************************************)
(* C04.  T and U are the polynomials with T0 = 1, T1 = x, U0 = 1, U1 = 2x  *)
(* and P(n) = 2x P(n-1) - P(n-2), evaluated with exact arithmetic.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Verdicts, Real

First(kind, x) == IF kind = "T" THEN R(x) ELSE RMul(2, x)
\* [1 |-> P0, .., n+1 |-> Pn] for one x
RECURSIVE UpTo(_, _, _)
UpTo(kind, n, x) ==
  IF n = 0 THEN <<"1">>
  ELSE IF n = 1 THEN <<"1", First(kind, x)>>
  ELSE LET p == UpTo(kind, n - 1, x)
       IN  Append(p, RSub(RMul(RMul(2, x), p[n]), p[n - 1]))

\* error allowance of the double recurrence on [-1, 1]: grows like n^2 eps
Tol(kind, n) == RMul("1e-14", (n + 2) * (n + 2) * (IF kind = "U" THEN n + 1 ELSE 1))
NearP(kind, n, out, x) == RNear(out, UpTo(kind, n, x)[n + 1], "0", Tol(kind, n))

Start == 0
After(st, e) == st
Verdict(st, e) ==
  CASE e.op = "value" -> FirstOf(<<
         Chk(Len(e.out) = Len(e.x), e.kind \o ": number of values"),
         Chk(Len(e.out) = Len(e.x) => \A m \in 1..Len(e.x) : NearP(e.kind, e.n, e.out[m], e.x[m]), e.kind \o ": value of degree"),
         Chk(e.x_after = e.x, "evaluation changed its argument")>>)
    [] e.op = "basis" -> \* out[m][d+1] = P_d(x[m])
       FirstOf(<<
         Chk(Len(e.out) = Len(e.x) /\ \A m \in 1..Len(e.out) : Len(e.out[m]) = e.n + 1, e.kind \o ": shape of the basis"),
         Chk((Len(e.out) = Len(e.x) /\ \A m \in 1..Len(e.out) : Len(e.out[m]) = e.n + 1) =>
              \A m \in 1..Len(e.x) : LET p == UpTo(e.kind, e.n, e.x[m])
                                     IN \A d \in 0..e.n : RNear(e.out[m][d + 1], p[d + 1], "0", Tol(e.kind, e.n)),
             e.kind \o ": basis column"),
         Chk(e.x_after = e.x, "evaluation changed its argument")>>)
=============================================================================
