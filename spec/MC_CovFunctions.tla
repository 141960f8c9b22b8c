--------------------------- MODULE MC_CovFunctions ---------------------------
(***************************************************************************)
(* The expression language as a transition system: an expression grows by  *)
(* adding, multiplying or wrapping, and its parameters are overwritten.    *)
(* In every state the denotation obeys the algebra of functions.           *)
(***************************************************************************)
EXTENDS CovFunctions, Json, IOUtils
CONSTANT MaxSize
L(k, n, v, extra) == extra @@ [k |-> k, p |-> <<<<n, v>>>>, name |-> k]
Leaf == {L("const", "a", "2", [on |-> "d"]), L("noise", "b", "3", [on |-> "d"]), L("nugget", "c", "1/2", [on |-> "d"]),
         L("poly", "d", "2", [on |-> "d"]), L("cross", "e", "-1", [on |-> "d"]), L("scaling", "f", "1", [on |-> <<"d">>])}
Size(e) == Len(Leaves(e))
D(x) == [t |-> "d", x |-> x]
S(i, x) == [t |-> "s", id |-> i, x |-> x]
M(f) == [t |-> "m", of |-> f]
LC(c, of) == [t |-> "lc", c |-> c, of |-> of]
Feature == {D("1"), D("3"), S(0, "1"), S(1, "2"), M(D("1")), M(S(1, "2"))}
ASSUME ndJsonSerialize(IOEnv.GEN, <<[none |-> 0]>>)
VARIABLES e
Init == e \in Leaf
Sum(a, b) == [k |-> "sum", l |-> a, r |-> b, name |-> "n"]
Prod(a, b) == [k |-> "prod", l |-> a, r |-> b, name |-> "n"]
Next == \/ Size(e) < MaxSize /\ \E f \in Leaf : e' \in {Sum(e, f), Prod(f, e)}
        \/ e.k # "meas" /\ e' = [k |-> "meas", of |-> e, name |-> "n"]
        \/ \E n \in ParamNames(e) : ~ REq(ParamValue(e, n), "5") /\ e' = WithParam(e, n, "5")
Same(a, b) == REq(a, b)
C(x, y) == Cov(e, x, y)
Symmetric == \A x, y \in Feature : Same(C(x, y), C(y, x))
Commutes == \A x, y \in Feature : \A f \in {g \in Leaf : g.k \in {"const", "cross", "scaling"}} :
   /\ Same(Cov(Sum(e, f), x, y), Cov(Sum(f, e), x, y))
   /\ Same(Cov(Prod(e, f), x, y), Cov(Prod(f, e), x, y))
Bilinear == \A x, y \in Feature : LET z == LC(<<"2", "-3">>, <<x, y>>) IN
   /\ \A u \in Feature : Same(C(z, u), RSub(RMul(2, C(x, u)), RMul(3, C(y, u))))
   /\ Same(C(z, z), RAdd(RSub(RMul(4, C(x, x)), RMul(6, RAdd(C(x, y), C(y, x)))), RMul(9, C(y, y))) ) \/ ~ Same(C(x, y), C(y, x))
   /\ Same(C(LC(<<>>, <<>>), x), 0)
MeasuredOnly == e.k = "meas" => \A x, y \in Feature : (x.t # "m" \/ y.t # "m") => Same(C(x, y), 0)
Stored == \A n \in ParamNames(e) : Same(ParamValue(WithParam(e, n, "7"), n), 7)
          /\ \A m \in ParamNames(e) \ {n} : ParamValue(WithParam(e, n, "7"), m) = ParamValue(e, m)
=============================================================================
