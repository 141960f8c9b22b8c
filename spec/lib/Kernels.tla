------------------------------- MODULE Kernels -------------------------------
(***************************************************************************)
(* Meaning of covariance and mean function expressions.                    *)
(*                                                                         *)
(* A feature is                                                            *)
(*   [t |-> "d", x |-> real]              a number                         *)
(*   [t |-> "v", x |-> <<real, ...>>]     a vector                         *)
(*   [t |-> "s", id |-> int, x |-> real]  a user type                      *)
(*   [t |-> "m", of |-> feature]          a measurement of a feature       *)
(*   [t |-> "lc", c |-> <<real>>, of |-> <<feature>>]  linear combination  *)
(* A tagged union is transparent: it is logged as the feature it holds.    *)
(* An expression is a tree of sums, products, measurement-only wrappers    *)
(* and leaves [k |-> kind, p |-> <<<<name, value>>, ...>>, ...].           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, LinAlg

Par(e, n) == e.p[n][2]

----------------------------------------------------------------------------
\* distances
Norm(u) == RSqrt(Dot(u, u))
Distance(metric, x, y) ==
  CASE metric = "euclid" /\ x.t = "d" -> RAbs(RSub(x.x, y.x))
    [] metric = "euclid" /\ x.t = "v" -> Norm(VecSub(x.x, y.x))
    [] metric = "radial" -> RAbs(RSub(Norm(x.x), Norm(y.x)))
    [] metric = "angular" -> RAcos(RMax("-1", RMin("1", RDiv(Dot(x.x, y.x), RMul(Norm(x.x), Norm(y.x))))))
HasDistance(metric, tx, ty) == tx = ty /\ (tx = "v" \/ (tx = "d" /\ metric = "euclid"))

Radial(kind, d, ell, sigma) ==
  IF RLeq(ell, 0) THEN "0"
  ELSE LET r == RDiv(d, ell)
           a3 == RMul(RSqrt(3), r)
           a5 == RMul(RSqrt(5), r)
           shape == CASE kind = "se" -> RExp(RNeg(RSq(r)))
                      [] kind = "exp" -> RExp(RNeg(r))
                      [] kind = "m32" -> RMul(RAdd(1, a3), RExp(RNeg(a3)))
                      [] kind = "m52" -> RMul(RAdd(RAdd(1, a5), RDiv(RSq(a5), 3)), RExp(RNeg(a5)))
       IN RMul(RSq(sigma), shape)
RadialKinds == {"se", "exp", "m32", "m52"}

----------------------------------------------------------------------------
\* which leaves have a meaning for which pair of plain features
ScaleOn(e, t) == t \in {e.on[n] : n \in 1..Len(e.on)}
SeenAt(e, x, m) == IF m THEN RAdd(RMul(Par(e, 1), x.x), Par(e, 2)) ELSE RMul(Par(e, 1), x.x)
ScaleAt(e, x) == IF x.t = "d" THEN RAdd(Par(e, 1), x.x) ELSE RMul(Par(e, 1), x.x)

RECURSIVE Applies(_, _, _)
Applies(e, tx, ty) ==
  CASE e.k \in RadialKinds -> HasDistance(e.metric, tx, ty)
    [] e.k = "const" -> TRUE
    [] e.k = "noise" -> tx = e.on /\ ty = e.on
    [] e.k = "nugget" -> tx = ty
    [] e.k = "poly" -> tx = "d" /\ ty = "d"
    [] e.k = "cross" -> tx \in {"d", "s"} /\ ty \in {"d", "s"}
    [] e.k = "seen" -> tx = "d" /\ ty = "d"
    [] e.k = "scaling" -> ScaleOn(e, tx) \/ ScaleOn(e, ty)
    [] e.k = "meas" -> Applies(e.of, tx, ty)
    [] e.k = "sum" -> Applies(e.l, tx, ty) \/ Applies(e.r, tx, ty)
    [] e.k = "prod" -> \* a scaling alone is not a covariance
         IF e.l.k = "scaling" THEN Applies(e.r, tx, ty)
         ELSE IF e.r.k = "scaling" THEN Applies(e.l, tx, ty)
         ELSE Applies(e.l, tx, ty) \/ Applies(e.r, tx, ty)

\* value of e between plain features x and y; mx (my): x (y) is a measurement
RECURSIVE Term(_, _, _, _, _)
Term(e, x, y, mx, my) ==
  CASE e.k \in RadialKinds -> Radial(e.k, Distance(e.metric, x, y), Par(e, 1), Par(e, 2))
    [] e.k = "const" -> RSq(Par(e, 1))
    [] e.k \in {"noise", "nugget"} -> IF x = y THEN RSq(Par(e, 1)) ELSE "0"
    [] e.k = "poly" -> RSum([n \in 1..Len(e.p) |-> RMul(RSq(Par(e, n)), RPow(RMul(x.x, y.x), n - 1))])
    [] e.k = "cross" -> RMul(Par(e, 1), RMul(x.x, y.x))
    [] e.k = "seen" -> RMul(SeenAt(e, x, mx), SeenAt(e, y, my)) \* a user covariance that tells measurements apart
    [] e.k = "scaling" -> RMul(IF ScaleOn(e, x.t) THEN ScaleAt(e, x) ELSE "1", IF ScaleOn(e, y.t) THEN ScaleAt(e, y) ELSE "1")
    [] e.k = "meas" -> IF mx /\ my THEN Term(e.of, x, y, FALSE, FALSE) ELSE "0"
    [] e.k = "sum" -> RAdd(IF Applies(e.l, x.t, y.t) THEN Term(e.l, x, y, mx, my) ELSE "0",
                           IF Applies(e.r, x.t, y.t) THEN Term(e.r, x, y, mx, my) ELSE "0")
    [] e.k = "prod" -> RMul(IF Applies(e.l, x.t, y.t) THEN Term(e.l, x, y, mx, my) ELSE "1",
                            IF Applies(e.r, x.t, y.t) THEN Term(e.r, x, y, mx, my) ELSE "1")
TermOrZero(e, x, y, mx, my) == IF Applies(e, x.t, y.t) THEN Term(e, x, y, mx, my) ELSE "0"

\* a feature as a sequence of weighted plain features
RECURSIVE Weighted(_)
Weighted(f) ==
  CASE f.t = "m" -> LET w == Weighted(f.of) IN
                    IF f.of.t = "lc" THEN w ELSE [n \in 1..Len(w) |-> [w[n] EXCEPT !.m = TRUE]]
    [] f.t = "lc" -> LET RECURSIVE Rec(_)
                         Rec(n) == IF n > Len(f.of) THEN <<>>
                                   ELSE LET w == Weighted(f.of[n])
                                        IN [k \in 1..Len(w) |-> [w[k] EXCEPT !.c = RMul(f.c[n], w[k].c)]] \o Rec(n + 1)
                     IN Rec(1)
    [] OTHER -> <<[c |-> "1", m |-> FALSE, f |-> f]>>

Cov(e, X, Y) ==
  LET a == Weighted(X) b == Weighted(Y)
  IN RSum([i \in 1..Len(a) |-> RSum([k \in 1..Len(b) |->
        RMul(RMul(a[i].c, b[k].c), TermOrZero(e, a[i].f, b[k].f, a[i].m, b[k].m))])])
\* the size of a covariance: what is left if nothing cancels.  Rounding is relative to it.
RECURSIVE Magnitude(_, _, _, _, _)
Magnitude(e, x, y, mx, my) ==
  CASE e.k = "poly" -> RSum([n \in 1..Len(e.p) |-> RMul(RSq(Par(e, n)), RPow(RAbs(RMul(x.x, y.x)), n - 1))])
    [] e.k = "seen" -> RMul(RAdd(RAbs(RMul(Par(e, 1), x.x)), RAbs(Par(e, 2))), RAdd(RAbs(RMul(Par(e, 1), y.x)), RAbs(Par(e, 2))))
    [] e.k = "meas" -> IF mx /\ my THEN Magnitude(e.of, x, y, FALSE, FALSE) ELSE "0"
    [] e.k = "sum" -> RAdd(IF Applies(e.l, x.t, y.t) THEN Magnitude(e.l, x, y, mx, my) ELSE "0",
                           IF Applies(e.r, x.t, y.t) THEN Magnitude(e.r, x, y, mx, my) ELSE "0")
    [] e.k = "prod" -> RMul(IF Applies(e.l, x.t, y.t) THEN Magnitude(e.l, x, y, mx, my) ELSE "1",
                            IF Applies(e.r, x.t, y.t) THEN Magnitude(e.r, x, y, mx, my) ELSE "1")
    [] OTHER -> RAbs(Term(e, x, y, mx, my))
CovSize(e, X, Y) ==
  LET a == Weighted(X) b == Weighted(Y)
  IN RSum([i \in 1..Len(a) |-> RSum([k \in 1..Len(b) |->
        RAbs(RMul(RMul(a[i].c, b[k].c), IF Applies(e, a[i].f.t, b[k].f.t) THEN Magnitude(e, a[i].f, b[k].f, a[i].m, b[k].m) ELSE "0"))])])
\* got is the covariance of X and Y, to a relative precision
CovIs(e, got, X, Y, rel) ==
  LET want == Cov(e, X, Y) IN RNear(got, want, rel, "1e-300") \/ RNear(got, want, "0", RMul(rel, CovSize(e, X, Y)))
CovMatrixIs(e, got, xs, ys, rel) ==
  Len(got) = Len(xs) /\ \A i \in 1..Len(xs) : Len(got[i]) = Len(ys) /\ \A k \in 1..Len(ys) : CovIs(e, got[i][k], xs[i], ys[k], rel)
CovDiagIs(e, got, xs, rel) == Len(got) = Len(xs) /\ \A i \in 1..Len(xs) : CovIs(e, got[i], xs[i], xs[i], rel)
CovMatrix(e, xs, ys) == [i \in 1..Len(xs) |-> [k \in 1..Len(ys) |-> Cov(e, xs[i], ys[k])]]
Gram(e, xs) == CovMatrix(e, xs, xs)
CovDiag(e, xs) == [i \in 1..Len(xs) |-> Cov(e, xs[i], xs[i])]
Measured(xs) == [i \in 1..Len(xs) |-> [t |-> "m", of |-> xs[i]]]

----------------------------------------------------------------------------
\* mean functions: zero, linear (slope, offset) on numbers, user ("site"; "bias", which tells
\* measurements apart), sums, products
RECURSIVE MeanApplies(_, _)
MeanApplies(e, t) ==
  CASE e.k = "zero" -> TRUE
    [] e.k = "linear" -> t = "d"
    [] e.k = "site" -> t = "s"
    [] e.k = "bias" -> t = e.on
    [] e.k \in {"sum", "prod"} -> MeanApplies(e.l, t) \/ MeanApplies(e.r, t)
RECURSIVE MeanTerm(_, _, _)
MeanTerm(e, x, m) == \* at the plain feature x; m: it is measured
  CASE e.k = "zero" -> "0"
    [] e.k = "linear" -> RAdd(RMul(Par(e, 1), x.x), Par(e, 2))
    [] e.k = "site" -> RMul(Par(e, 1), x.x)
    [] e.k = "bias" -> IF m THEN Par(e, 1) ELSE "0"
    [] e.k = "sum" -> RAdd(IF MeanApplies(e.l, x.t) THEN MeanTerm(e.l, x, m) ELSE "0", IF MeanApplies(e.r, x.t) THEN MeanTerm(e.r, x, m) ELSE "0")
    [] e.k = "prod" -> RMul(IF MeanApplies(e.l, x.t) THEN MeanTerm(e.l, x, m) ELSE "1", IF MeanApplies(e.r, x.t) THEN MeanTerm(e.r, x, m) ELSE "1")
Mean(e, X) == LET a == Weighted(X) IN RSum([i \in 1..Len(a) |-> RMul(a[i].c, IF MeanApplies(e, a[i].f.t) THEN MeanTerm(e, a[i].f, a[i].m) ELSE "0")])
RECURSIVE MeanMagnitude(_, _, _)
MeanMagnitude(e, x, m) ==
  CASE e.k = "linear" -> RAdd(RAbs(RMul(Par(e, 1), x.x)), RAbs(Par(e, 2)))
    [] e.k = "sum" -> RAdd(IF MeanApplies(e.l, x.t) THEN MeanMagnitude(e.l, x, m) ELSE "0", IF MeanApplies(e.r, x.t) THEN MeanMagnitude(e.r, x, m) ELSE "0")
    [] e.k = "prod" -> RMul(IF MeanApplies(e.l, x.t) THEN MeanMagnitude(e.l, x, m) ELSE "1", IF MeanApplies(e.r, x.t) THEN MeanMagnitude(e.r, x, m) ELSE "1")
    [] OTHER -> RAbs(MeanTerm(e, x, m))
MeanSize(e, X) == LET a == Weighted(X) IN RSum([i \in 1..Len(a) |-> RAbs(RMul(a[i].c, IF MeanApplies(e, a[i].f.t) THEN MeanMagnitude(e, a[i].f, a[i].m) ELSE "0"))])
MeanIs(e, got, X, rel) == LET want == Mean(e, X) IN RNear(got, want, rel, "1e-300") \/ RNear(got, want, "0", RMul(rel, MeanSize(e, X)))
MeanVectorIs(e, got, xs, rel) == Len(got) = Len(xs) /\ \A i \in 1..Len(xs) : MeanIs(e, got[i], xs[i], rel)
MeanVector(e, xs) == [i \in 1..Len(xs) |-> Mean(e, xs[i])]

----------------------------------------------------------------------------
\* parameters of an expression, and writing one of them
RECURSIVE Leaves(_)
Leaves(e) == CASE e.k \in {"sum", "prod"} -> Leaves(e.l) \o Leaves(e.r)
               [] e.k = "meas" -> Leaves(e.of)
               [] OTHER -> e.p
ParamNames(e) == LET l == Leaves(e) IN {l[n][1] : n \in 1..Len(l)}
ParamValue(e, name) == LET l == Leaves(e) IN l[CHOOSE n \in 1..Len(l) : l[n][1] = name][2]
RECURSIVE WithParam(_, _, _)
WithParam(e, name, v) ==
  CASE e.k \in {"sum", "prod"} -> [e EXCEPT !.l = WithParam(e.l, name, v), !.r = WithParam(e.r, name, v)]
    [] e.k = "meas" -> [e EXCEPT !.of = WithParam(e.of, name, v)]
    [] OTHER -> [e EXCEPT !.p = [n \in 1..Len(e.p) |-> IF e.p[n][1] = name THEN <<name, v>> ELSE e.p[n]]]
=============================================================================
