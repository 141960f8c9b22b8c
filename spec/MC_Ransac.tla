------------------------------ MODULE MC_Ransac ------------------------------
(***************************************************************************)
(* All histories of short consensus loops: each candidate is rejected or   *)
(* answered with some metrics.  Checked: the loop's promises, stated on    *)
(* the history.  Emitted: scripts of answers, replayed into the code.      *)
(***************************************************************************)
EXTENDS Ransac, Json, IOUtils
CONSTANTS MaxDraws, MaxScript
Groups == <<1, 2, 3>>
\* answers of the user's functions: rejected, or number of inliers among the others and the consensus' metric
Answers == {[valid |-> FALSE, inliers |-> 0, m |-> "nan"]} \cup {[valid |-> TRUE, inliers |-> k, m |-> m] : k \in 0..2, m \in {"1", "2", "inf", "nan"}}
Configs == {[groups |-> Groups, threshold |-> "1", sample |-> s, min |-> mn, max |-> mx, max_failed |-> f] : s \in 0..3, mn \in 0..3, mx \in 0..2, f \in 0..2}
Scripts == UNION {[1..n -> Answers] : n \in 1..MaxScript}
Lists == UNION {{[answers |-> s, min |-> mn, max |-> mx, max_failed |-> f] : s \in [1..n -> Answers], mn \in 1..2, mx \in {n}, f \in {0, 2}} : n \in 1..MaxScript}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Lists))

VARIABLES st, history
vars == <<st, history>>
Init == \E c \in Configs : st = After(Start, c @@ [op |-> "begin"]) /\ history = <<>>
Others(c) == SelectSeq(Groups, LAMBDA g : g \notin c)
Draw(c, a) ==
  LET rest == Others(c)
      f == [valid |-> a.valid, metrics |-> [i \in 1..Len(rest) |-> <<rest[i], IF i <= a.inliers THEN "1" ELSE "3">>], consensus |-> a.m]
      cs == SetToSeq(c)
      e == [op |-> "iterate", it |-> Iteration(st.config, cs, f), f |-> f] IN
  /\ Assert(Verdict(st, e) = "", Verdict(st, e))
  /\ st' = After(st, e) /\ history' = Append(history, [c |-> c, a |-> a])
Next == /\ ~Done(st) /\ st.running /\ Len(history) < MaxDraws
        /\ \E c \in SUBSET RangeOf(Groups), a \in Answers : Cardinality(c) = st.config.sample /\ a.inliers <= 3 - st.config.sample /\ Draw(c, a)

Sampled == Len(history) = st.accepted + st.rejected
Bounded == st.accepted <= st.config.max /\ st.rejected <= Limit(st.config)
Qualifies(h) == h.a.valid /\ Cardinality(h.c) + h.a.inliers >= st.config.min
Honest == Done(st) =>
  /\ (Code(st) = "success") <=> (ValidConfig(st.config) /\ Cardinality({i \in DOMAIN history : history[i].a.valid}) = st.config.max /\ \E i \in DOMAIN history : Qualifies(history[i]))
  /\ (Code(st) = "invalid_arguments") => history = <<>>
  /\ (Code(st) = "exceeded_max_failed_candidates") => ~history[Len(history)].a.valid
GoodAreQualified == Len(st.good) = Cardinality({i \in DOMAIN history : Qualifies(history[i])})
\* keeping the best so far, one at a time, ends with a best of all
RECURSIVE Keep(_, _)
Keep(good, n) == IF n = 1 THEN good[1] ELSE LET b == Keep(good, n - 1) IN IF RIsNan(b.metric) \/ RLt(good[n].metric, b.metric) THEN good[n] ELSE b
GreedyIsBest == st.good # <<>> => IsBest(st.good, Keep(st.good, Len(st.good)))
=============================================================================
