------------------------- MODULE MC_EnsembleSampler -------------------------
(***************************************************************************)
(* The sampler itself, choosing freely: three walkers on a line, stretches *)
(* 1/2, 1 and 2, a density that ends at 4.  Everything it does is allowed  *)
(* by EnsembleSampler.tla; walkers never leave the support; and what it    *)
(* would never do (moving without being accepted, accepting what has no    *)
(* density or rejecting what is more likely) is refused.  The rule is      *)
(* reversible, so the density is what the walkers are distributed by.      *)
(***************************************************************************)
EXTENDS EnsembleSampler, Json, IOUtils, TLC
CONSTANTS MaxSteps, MaxGen, Steps
Kinds == {"ok", "low", "nan", "high", "far"}
Inputs == UNION {[1..n -> Kinds] : n \in 1..MaxGen}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[kinds |-> k] : k \in Inputs}))

\* detailed balance: pi(x) g(z) A(x, y) = pi(y) g(1/z) A(y, x) z^(d-2) with g(z) = 1 / sqrt(z)
Zs == {"1/2", "2/3", "1", "3/2", "2"}
Ratios == {"-3", "-1/2", "0", "1/4", "2"} \* log pi(y) - log pi(x)
A(d, z, r) == LET w == Chance([p |-> <<>>, lp |-> "0"], [p |-> [i \in 1..d |-> "0"], lp |-> r], z) IN w
ZPow(z, k) == IF k < 0 THEN RDiv("1", RPow(z, 0 - k)) ELSE RPow(z, k)
ASSUME \A d \in 1..4, z \in Zs, r \in Ratios :
  RNear(RMul(RDiv("1", RSqrt(z)), A(d, z, r)),
        RMul(RMul(RExp(r), RMul(RSqrt(z), A(d, RDiv("1", z), RNeg(r)))), ZPow(z, d - 2)), "1e-20", "0")

Density(x) == IF RLeq(RAbs(x), "4") THEN RDiv(RNeg(RSq(x)), 2) ELSE "-inf"
Walker(x) == [p |-> <<R(x)>>, lp |-> Density(x)]
VARIABLES st, left
vars == <<st, left>>
Init == /\ st \in {[Start EXCEPT !.ens = <<Walker("-1"), Walker("2"), Walker(x)>>] : x \in {"4", "1/2"}}
        /\ left = MaxSteps
Propose(cur, k, j, z) == Walker(RAdd(cur[j].p[1], RMul(z, Deltas(cur[k].p, cur[j].p)[1])))
Draws(k) == {c \in [v : Others(st, k), z : Steps, accept : BOOLEAN] : TRUE}
\* walkers 1 and 3 move relative to 2, then 2 relative to either
One(m, k, c) == LET w == Propose(m.cur, k, c.v, c.z)
                    a == CASE Acceptable(m.cur[k], w, c.z) = "must" -> TRUE [] Acceptable(m.cur[k], w, c.z) = "never" -> FALSE [] OTHER -> c.accept
                IN [cur |-> IF a THEN [m.cur EXCEPT ![k] = w] ELSE m.cur, evals |-> Append(m.evals, w), accepted |-> [m.accepted EXCEPT ![k] = a]]
All(c1, c3, c2) == One(One(One([cur |-> st.ens, evals |-> <<>>, accepted |-> [k \in 1..3 |-> FALSE]], 1, c1), 3, c3), 2, c2)
Event(m) == [op |-> "move", iteration |-> st.iteration + 1, evals |-> m.evals,
             ens |-> [k \in 1..3 |-> [p |-> m.cur[k].p, lp |-> m.cur[k].lp, accepted |-> m.accepted[k]]]]
Next == /\ left > 0 /\ left' = left - 1
        /\ \E c1 \in Draws(1), c3 \in Draws(3), c2 \in Draws(2) :
             LET m == All(c1, c3, c2) e == Event(m) IN
             /\ Assert(Verdict(st, e) = "", <<"refused", Verdict(st, e), e>>)
             /\ \A k \in 1..3 : \* nothing else could have happened to a walker
                  LET lost == [e EXCEPT !.ens[k].p = <<"100">>]
                      never == [e EXCEPT !.ens[k] = [p |-> m.evals[1].p, lp |-> "-inf", accepted |-> TRUE]] IN
                  Assert(Verdict(st, lost) # "" /\ Verdict(st, never) # "", <<"allowed", e>>)
             /\ st' = [After(st, e) EXCEPT !.tally = NoTally]
InSupport == \A k \in 1..Len(st.ens) : RIsFinite(st.ens[k].lp) /\ st.ens[k].lp = Density(st.ens[k].p[1])
EveryWalkerOnce == {Order(st)[n] : n \in 1..3} = 1..3
=============================================================================
