------------------------ MODULE MC_LinearCombinations ------------------------
(***************************************************************************)
(* A machine that builds combinations (append a term, scale, nest, apply a *)
(* row of a matrix), tracking the value each would take for one fixed      *)
(* assignment of values to the features.  Whatever is built, the weights   *)
(* it denotes reproduce that value, and covariances are bilinear in it.    *)
(***************************************************************************)
EXTENDS LinearCombinations, Json, IOUtils, SequencesExt
CONSTANT MaxSteps
D(x) == [t |-> "d", x |-> x]
S(i, x) == [t |-> "s", id |-> i, x |-> x]
F == {D("1"), D("-2"), S(1, "3")}
V(f) == IF f = D("1") THEN "5" ELSE IF f = D("-2") THEN "7" ELSE "11"
Coef == {"-2", "0", "1", "1/2"}
Expr == [k |-> "sum", name |-> "n", l |-> [k |-> "cross", p |-> <<<<"a", "2">>>>, name |-> "c"],
         r |-> [k |-> "sum", name |-> "n", l |-> [k |-> "const", p |-> <<<<"b", "3">>>>, name |-> "k"],
                r |-> [k |-> "nugget", p |-> <<<<"d", "1/2">>>>, name |-> "g"]]]
Matrices == {[A |-> A] : A \in UNION {[1..r -> [1..c -> {-1, 0, 2}]] : r \in 1..2, c \in 1..2} \cup {<<<<0, 0, 0>>>>, <<<<1, 1, 1>>, <<0, 0, 0>>, <<1, -1, 2>>>>}}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Matrices))
VARIABLES lc, val, left
vars == <<lc, val, left>>
Init == lc = [t |-> "lc", c |-> <<>>, of |-> <<>>] /\ val = "0" /\ left = MaxSteps
Append1(f, c) == lc' = [lc EXCEPT !.c = Append(@, c), !.of = Append(@, f)] /\ val' = RAdd(val, RMul(c, V(f)))
Scale(c) == lc' = [lc EXCEPT !.c = VecScale(c, @)] /\ val' = RMul(c, val)
Nest(c) == lc' = [t |-> "lc", c |-> <<c>>, of |-> <<lc>>] /\ val' = RMul(c, val)
Terms(x) == Len(Weighted(x))
Next == /\ left > 0 /\ left' = left - 1
        /\ \/ \E f \in F, c \in Coef : Append1(f, c)
           \/ Scale("-2")
           \/ Len(lc.of) > 1 /\ Nest("1/2")
Value == LET w == Weighted(lc) IN REq(val, RSum([n \in 1..Len(w) |-> RMul(w[n].c, V(w[n].f))]))
Bilinear == \A f \in F : REq(Cov(Expr, lc, f), RSum([n \in 1..Terms(lc) |-> RMul(Weighted(lc)[n].c, Cov(Expr, Weighted(lc)[n].f, f))]))
Symmetric == \A f \in F : REq(Cov(Expr, lc, f), Cov(Expr, f, lc))
Variance == RLeq(0, Cov(Expr, lc, lc)) \* this expression is positive definite
Totals == SameCombination(Weighted(lc), RowTimes(<<"1">>, <<lc>>))
=============================================================================
