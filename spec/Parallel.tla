------------------------------- MODULE Parallel -------------------------------
(***************************************************************************)
(* C13.  One call of an apply helper as a transition system.               *)
(*                                                                         *)
(* n elements are given in order, each to be applied once.  Observable     *)
(* steps: an application begins, it ends (with a value, or throws), and    *)
(* the helper returns (with results, or an error).  Allowed: with no pool  *)
(* (or one thread) applications follow the order of the elements, one at a *)
(* time, up to the first that throws.  With a pool they may overlap in any *)
(* way (at most one per thread), every element is applied exactly once,    *)
(* and the helper returns only when all have ended.  Either way the        *)
(* results are those of the sequential run, and an error is the one the    *)
(* sequential run meets first.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts, Real

Start == [call |-> [n |-> 0], begun |-> <<>>, ended |-> {}, done |-> TRUE]
Idle(st) == st.done
Serial(c) == c.threads <= 1
Fails(c) == RangeOf(c.fails)
Ran(s) == RangeOf(s.begun)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* the value of one application
Value(c, i) == IF c.keyed THEN 100 * c.keys[i] + c.xs[i] ELSE c.xs[i] * c.xs[i] + 1
Outcome(c, i) == IF c.boolean THEN Value(c, i) % 3 = 0 ELSE Value(c, i)
Wanted(c) == [i \in 1..c.n |-> <<c.keys[i], Outcome(c, i)>>]
Complete(st) == IF Serial(st.call) /\ Fails(st.call) # {} THEN st.ended = 1..Least(Fails(st.call)) /\ Ran(st) = st.ended
                ELSE st.ended = 1..st.call.n

After(st, e) ==
  CASE e.op = "call" -> [call |-> e, begun |-> <<>>, ended |-> {}, done |-> FALSE]
    [] e.op = "begin" -> [st EXCEPT !.begun = Append(@, e.i)]
    [] e.op = "end" -> [st EXCEPT !.ended = @ \cup {e.i}]
    [] e.op = "return" -> [st EXCEPT !.done = TRUE]
    [] OTHER -> st

Symmetric(x, y) == RMul(RAdd(x, "0.5"), RAdd(y, "0.5"))
Verdict(st, e) ==
  CASE e.op = "call" -> Chk(st.done, "a call inside a call")
    [] e.op = "begin" ->
       FirstOf(<<Chk(~ st.done, "a task ran after the helper had returned"),
                 Chk(e.i \in 1..st.call.n, "applied to something that is not an element"),
                 Chk(e.i \notin Ran(st), "an element was applied twice"),
                 Chk(Cardinality(Ran(st) \ st.ended) < (IF Serial(st.call) THEN 1 ELSE st.call.threads), "more applications at a time than threads"),
                 Chk(Serial(st.call) => e.i = Len(st.begun) + 1, "without a pool elements are applied in order"),
                 Chk(Serial(st.call) => Fails(st.call) \cap st.ended = {}, "without a pool an error stops the run")>>)
    [] e.op = "end" -> FirstOf(<<Chk(~ st.done, "a task was still running after the helper had returned"),
                                 Chk(e.i \in Ran(st) \ st.ended, "an application ended twice")>>)
    [] e.op = "return" ->
       FirstOf(<<Chk(~ st.done, "returned twice"), Chk(Complete(st), "returned before every element was applied"),
                 IF Fails(st.call) = {} THEN Chk(e.ok, "an error nobody raised")
                 ELSE FirstOf(<<Chk(~ e.ok, "an error was lost"), Chk(e.error = Least(Fails(st.call)), "not the error the sequential run meets first")>>),
                 Chk(e.ok /\ ~ st.call.void => e.out = Wanted(st.call), "results differ from the sequential ones"),
                 Chk(e.ok /\ st.call.void => e.out = Wanted(st.call), "effects of the applications differ from the sequential ones")>>)
    [] e.op = "cross" -> Chk(Len(e.out) = Len(e.xs) /\ \A a \in 1..Len(e.xs) : Len(e.out[a]) = Len(e.ys)
                             /\ \A b \in 1..Len(e.ys) : REq(e.out[a][b], RSub(RMul(e.xs[a], 16), e.ys[b])), "pooled cross covariance")
    [] e.op = "gram" -> Chk(Len(e.out) = Len(e.xs) /\ \A a, b \in 1..Len(e.xs) : REq(e.out[a][b], Symmetric(e.xs[a], e.xs[b])), "pooled covariance matrix")
    [] e.op = "throwing" -> FirstOf(<<Chk(e.thrown, "an error in a covariance function was lost"), Chk(e.late = 0, "a covariance was evaluated after the call had returned")>>)
    [] e.op = "same" -> Chk(e.serial = e.pooled, "pooled result differs from the sequential one (" \o e.what \o ")")
    [] e.op = "pool" -> FirstOf(<<Chk(e.threads = (IF e.asked = 1 THEN 1 ELSE IF e.asked = 0 THEN e.hardware ELSE e.asked), "threads of a pool"),
                                  Chk(e.null = (e.asked = 1), "one thread means no pool")>>)
=============================================================================
