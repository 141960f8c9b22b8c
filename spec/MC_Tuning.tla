------------------------------ MODULE MC_Tuning ------------------------------
(***************************************************************************)
(* A greedy search with any proposals it may make, evaluated in any order, *)
(* and a search of arbitrary evaluations; a recorder keeps every objective *)
(* so that "nothing evaluated is better" can be stated without the spec's  *)
(* own bookkeeping.  Gradients of quadratics are differenced exactly.      *)
(***************************************************************************)
EXTENDS Tuning, Json, IOUtils, TLC, SequencesExt
CONSTANTS Rounds, MaxEvals
VARIABLES st, seen, center
vars == <<st, seen, center>>
Grid == {"1", "2", "3"}
Par(name, v, fixed) == [n |-> name, v |-> v, lo |-> "0", hi |-> IF fixed THEN "inf" ELSE "4", log |-> FALSE, fixed |-> fixed]
Problem(a, b) == <<Par("a", a, FALSE), Par("b", b, FALSE), Par("c", "9", TRUE)>>
Objective(p) == LET x == RSub(p[1][2], center[1]) y == RSub(p[2][2], center[2]) IN
  IF center[3] /\ REq(p[1][2], 2) THEN "nan" ELSE RAdd(RAdd(RSq(x), RSq(y)), RMul("0.5", RMul(x, y)))
StartEvent(m, ps) == [op |-> "start", method |-> m, params |-> ps, out |-> "inf", optimum |-> "none", n |-> 1, rounds |-> Rounds, sets |-> <<>>, budget |-> 0]
Init == /\ center \in {<<x, y, u>> : x \in {"0", "2.5"}, y \in {"1.5"}, u \in BOOLEAN}
        /\ \E m \in {"greedy", "search"}, a \in {"0", "2"}, b \in {"1", "4"} : st = After(Start, StartEvent(m, Problem(a, b)))
        /\ seen = <<>>
Points == {<< <<"a", x>>, <<"b", y>>, <<"c", "9">> >> : x, y \in {"0", "1", "2", "3", "4", "5"}}
Event(p) == [op |-> "eval", p |-> p, out |-> Objective(p)]
Next == \E p \in Points : /\ Verdict(st, Event(p)) = ""
                          /\ st.method = "search" => Len(seen) < MaxEvals
                          /\ st' = After(st, Event(p)) /\ seen' = Append(seen, Event(p)) /\ UNCHANGED center
Costs == {Cost(seen[i].out) : i \in 1..Len(seen)}
Result(p) == [op |-> "result", p |-> p, same_priors |-> TRUE, untouched |-> TRUE, out |-> Objective(p)]
Accepted(p) == Verdict(st, Result(p)) = ""
\* only the best of everything evaluated may be returned
ResultIsBest == (st.method = "greedy" => Finished(st)) /\ seen # <<>> =>
  \A p \in Points : Accepted(p) => \A c \in Costs : ~RLt(c, Cost(Objective(p)))
ResultExists == (st.method = "greedy" => Finished(st)) /\ seen # <<>> => \E p \in Points : Accepted(p)
BestIsKnown == st.method = "greedy" /\ st.batches > 0 => \E i \in 1..Len(seen) : Cost(seen[i].out) = st.value /\ (st.value # "inf" => seen[i].p = st.best)
InBounds == \A i \in 1..Len(seen) : Allowed(st.params, seen[i].p)
Budget == st.method = "greedy" => Len(seen) <= 2 * Rounds * 2 + 1
BoundsHold == \A p \in Points : ~Allowed(st.params, p) => ~Accepted(p)

\* gradients
GradParams(v, lo, hi) == <<[n |-> "a", v |-> v, lo |-> lo, hi |-> hi, log |-> FALSE, fixed |-> FALSE]>>
GradEvent(v, lo, hi, c, h, g) == [op |-> "gradient", params |-> GradParams(v, lo, hi), A |-> <<<<"3">>>>, c |-> <<c>>, evals |-> <<<< <<"a", RAdd(v, h)>> >>>>, out |-> <<g>>]
Difference(v, c, h) == RDiv(RSub(RMul(3, RSq(RSub(RAdd(v, h), c))), RMul(3, RSq(RSub(v, c)))), h)
ASSUME \A v \in {"0", "1", "4"}, c \in {"-2", "0.5", "7"} : \A h \in (IF v = "0" THEN {"1e-6"} ELSE IF v = "4" THEN {"-1e-6"} ELSE {"1e-6", "-1e-6"}) :
  LET g == Difference(v, c, h) e == GradEvent(v, "0", "4", c, h, g) p == GradParams(v, "0", "4")[1] IN
  /\ Verdict(Start, [e EXCEPT !.out = <<Pushed(p, g)>>]) = ""
  /\ Verdict(Start, [e EXCEPT !.out = <<RMul("1.01", g)>>]) # ""
  /\ (Pushed(p, g) # g) <=> ((v = "0" /\ RLt(0, g)) \/ (v = "4" /\ RLt(g, 0)))
  /\ Pushed(p, g) # "0" => Verdict(Start, [e EXCEPT !.out = <<"0">>]) # ""
ASSUME Verdict(Start, GradEvent("4", "0", "4", "0.5", "1e-6", Difference("4", "0.5", "1e-6"))) = "gradient: evaluated parameters out of bounds"
Starts == {"low", "inside", "high"}
Inputs == {[kinds |-> <<k1, k2>>, starts |-> <<s1, s2>>, center |-> <<c1, c2>>, log |-> l] : k1, k2 \in {"both", "lower", "free", "fixed"}, s1, s2 \in Starts, c1 \in {"-1", "0.5", "9"}, c2 \in {"2"}, l \in BOOLEAN}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))
=============================================================================
