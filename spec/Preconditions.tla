--------------------------- MODULE Preconditions ----------------------------
(***************************************************************************)
(* Pieces that do not fit together stop the program.                       *)
(*                                                                         *)
(* The program is a history of calls; each call puts together pieces (a    *)
(* container and indices into it, a mean and a covariance, a matrix and a  *)
(* right hand side, groups and what was predicted for them ...).  If the   *)
(* pieces of a call fit the call completes and the program goes on; if     *)
(* they do not, the program ends there, before the call returns anything.  *)
(* Valid(c) says when the pieces of a call fit.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts
In(s, n) == \A i \in DOMAIN s : s[i] >= 0 /\ s[i] < n
ToSet(s) == {s[i] : i \in DOMAIN s}
NoRepeats(s) == Cardinality(ToSet(s)) = Len(s)
Total[s \in Seq(Int)] == IF s = <<>> THEN 0 ELSE Head(s) + Total[Tail(s)]
RECURSIVE Joined(_)
Joined(g) == IF g = <<>> THEN <<>> ELSE Head(g) \o Joined(Tail(g))
\* the groups of a data set of n: every position in exactly one of them
Partition(g) == LET all == Joined(g) IN NoRepeats(all) /\ ToSet(all) = 0 .. (Len(all) - 1)
Lens(g) == [i \in DOMAIN g |-> Len(g[i])]
Increasing(s) == \A i \in 1 .. (Len(s) - 1) : s[i] <= s[i + 1]
Valid(c) ==
  CASE c.op = "subset" -> In(c.a, c.n)
    [] c.op = "subset_block" -> In(c.a, c.n) /\ In(c.b, c.m)     \* neither list empty: nothing is read otherwise
    [] c.op = "symmetric_subset" -> c.n = c.m /\ In(c.a, c.n)
    [] c.op = "set_subset" -> Len(c.a) = c.n /\ In(c.a, c.m)
    [] c.op = "joint" -> c.n = c.m /\ c.n = c.k
    [] c.op = "two" -> c.n = c.m                                \* two pieces of the same size
    [] c.op = "element" -> c.m >= 0 /\ c.m < c.n
    [] c.op = "likelihood" -> c.n = c.m /\ c.n = c.k
    [] c.op = "normal_sample" -> c.n = c.m /\ c.n = c.k
    [] c.op = "groups" -> Partition(c.g)
    [] c.op = "reassemble" -> Partition(c.g) /\ c.b = [i \in DOMAIN c.g |-> i - 1] /\ c.a = Lens(c.g)
    [] c.op = "fold" -> NoRepeats(c.a) /\ In(c.a, c.n)
    [] c.op = "scores" -> c.a = Lens(c.g)
    [] c.op = "block_times" -> Total[c.a] = c.n
    [] c.op = "block_minus" -> c.a = c.b
    [] c.op = "block_symmetric" -> c.n + c.m = c.k
    [] c.op = "grouped_product" -> Len(c.a) > 0 /\ c.a = c.b    \* the keys on either side
    [] c.op = "grouped_minus" -> c.a = c.b
    [] c.op = "stack" -> \A i \in DOMAIN c.a : c.a[i] = c.a[1]
    [] c.op = "one_value" -> Cardinality(ToSet(c.a)) = 1
    [] c.op = "strict_join" -> ToSet(c.a) \cap ToSet(c.b) = {}
    [] c.op = "sorted_keys" -> Increasing(c.a)
    [] c.op = "forest" -> ToSet(c.b) \subseteq ToSet(c.a)
    [] c.op = "bounds" -> c.n < c.m
    [] c.op = "log_bounds" -> c.n < c.m /\ c.n > 0
    [] c.op = "tunable_values" -> c.n = c.m
    [] c.op = "degree" -> c.n >= 0
    [] c.op = "distance" -> c.n >= 0
    [] c.op = "to_size" -> c.n >= 0
    [] c.op = "to_double" -> IF c.n = 0 THEN TRUE ELSE c.m <= 0  \* 2^53 + m, on either side of zero
    [] c.op = "columns" -> c.a = <<0, 1, 2>>                    \* the metadata columns, in order
    [] c.op = "widths" -> \A i \in DOMAIN c.a : c.a[i] = c.n    \* row widths
    [] c.op = "parameters_read" -> c.n = c.m
    [] c.op = "parameters_named" -> RangeOf(c.a) = 0 .. (c.n - 1)  \* as many columns as parameters
    [] c.op = "finite_states" -> c.n > 2
    [] c.op = "not_a_number" -> c.n = 0
    [] c.op = "inducing_points" -> c.n > 0
    [] c.op = "initialized" -> c.n = 1
    [] c.op = "exists" -> c.m < c.n                             \* parameter m of n
    [] c.op = "datasets" -> c.n = c.m
Start == [ok |-> TRUE]
\* the calls that complete in a history
RECURSIVE Completed(_)
Completed(l) == IF l = <<>> THEN 0 ELSE IF Valid(Head(l)) THEN 1 + Completed(Tail(l)) ELSE 0
Verdict(st, e) ==
  LET n == Completed(e.calls) IN
  FirstOf(<<Chk(e.completed >= n, "a call whose pieces fit stopped the program"),
            Chk(e.completed <= n, "a call whose pieces do not fit returned")>>)
After(st, e) == st
=============================================================================
