-------------------------- MODULE MC_Distributions --------------------------
(***************************************************************************)
(* Laws of the algebra on all small integer distributions and matrices:    *)
(* marginals commute with selection, maps compose, sums are linear, and a  *)
(* concatenation of independent parts gives its parts back.                *)
(***************************************************************************)
EXTENDS Distributions, Json, IOUtils, SequencesExt
Coefs == {-2, 0, 1, 3}
Covs == {<<<<1, 0>>, <<0, 4>>>>, <<<<2, 1>>, <<1, 2>>>>, <<<<1, 1>>, <<1, 1>>>>, <<<<0, 0>>, <<0, 0>>>>,
         <<<<4, -2>>, <<-2, 1>>>>, <<<<0, 0>>, <<0, 3>>>>, <<<<5, 2>>, <<2, 1>>>>}
Mats == UNION {[1..r -> [1..2 -> Coefs]] : r \in 1..2}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[A |-> A, mean |-> <<3, -1>>, cov |-> C] : A \in Mats, C \in Covs}))
VARIABLES A, B, x, y
vars == <<A, B, x, y>>
Init == /\ A \in [1..2 -> [1..2 -> Coefs]] /\ B \in {<<<<1, 2>>>>, <<<<0, -1>>, <<3, 1>>>>, <<<<1, 0>>, <<0, 1>>, <<1, 1>>>>}
        /\ \E C \in Covs : x = Dist(<<3, -1>>, C)
        /\ y = Dist(<<1, 1>>, <<<<2, -1>>, <<-1, 3>>>>)
Next == UNCHANGED vars
Eq(u, v) == Same(u, v)
Composes == Eq(Linear(B, Linear(A, x)), Linear(MatMul(B, A), x))
SumIsMap == /\ Eq(Plus(x, y), Linear(HCat(Identity(2), Identity(2)), Both(x, y)))
            /\ Eq(Minus(x, y), Linear(HCat(Identity(2), MatScale(-1, Identity(2))), Both(x, y)))
ScaleIsMap == Eq(Scaled(x, -3), Linear(MatScale(-3, Identity(2)), x))
PartIsMap == /\ Eq(Part(x, <<1>>), Linear(<<<<0, 1>>>>, x))
             /\ Eq(Part(Both(x, y), <<0, 1>>), x) /\ Eq(Part(Both(x, y), <<2, 3>>), y)
             /\ Eq(Marg(Part(x, <<1, 0>>)), Part(Marg(x), <<1, 0>>))
Symmetric == LET c == Linear(B, Linear(A, x)).cov IN \A i, k \in 1..Len(c) : REq(c[i][k], c[k][i])
=============================================================================
