-------------------------- MODULE MC_Preconditions --------------------------
(***************************************************************************)
(* Every small call, and the histories of them.                            *)
(***************************************************************************)
EXTENDS Preconditions, Json, IOUtils, SequencesExt
CONSTANTS Small
Seqs(S, n) == UNION {[1 .. l -> S] : l \in 0 .. n}
O(op, kinds) == {[op |-> op, kind |-> x] : x \in kinds}
X(s, t) == {x @@ y : x \in s, y \in t}
N(S) == {[n |-> v] : v \in S}
M(S) == {[m |-> v] : v \in S}
K(S) == {[k |-> v] : v \in S}
A(S) == {[a |-> v] : v \in S}
B(S) == {[b |-> v] : v \in S}
G(S) == {[g |-> v] : v \in S}
Groups == {g \in Seqs(Seqs(0 .. 2, 2), 2) : Joined(g) # <<>>}
FewGroups == { << <<0>> >>, << <<1>> >>, << <<0, 1>> >>, << <<0>>, <<1>> >>, << <<1>>, <<0>> >>, << <<1, 2>>, <<0>> >>, << <<0>>, <<2>> >>,
               << <<0, 2>>, <<1>> >>, << <<0, 1>>, <<1>> >>, << <<0, 1>>, <<1, 2>> >>, << <<0>>, <<0>> >>, << <<2>>, <<0, 1>> >>, << <<1>>, <<2>> >> }
Calls ==
  X(X(O("subset", {"values", "vector", "rows", "cols", "joint", "marginal", "dataset", "diagonal"}), N(1 .. 3)), A(Seqs(-1 .. 3, 2))) \cup
  X(X(X(O("subset_block", {""}), N(1 .. 2)), M(1 .. 2)), X(A(Seqs(-1 .. 2, 2) \ {<<>>}), B(Seqs(-1 .. 2, 2) \ {<<>>}))) \cup
  X(X(X(O("symmetric_subset", {""}), N(1 .. 3)), M(1 .. 3)), A(Seqs(-1 .. 3, 1))) \cup
  X(X(X(O("set_subset", {"vector", "diagonal"}), N(0 .. 2)), M(1 .. 3)), A(Seqs(-1 .. 3, 2))) \cup
  X(X(X(O("joint", {"dense"}), N(0 .. 3)), M(0 .. 3)), K(0 .. 3)) \cup
  X(X(O("two", {"marginal", "dataset", "combination", "likelihood_diagonal", "mean_added", "mean_removed", "with", "with_groups",
                "csv_rows", "csv_columns"}), N(1 .. 3)), M(1 .. 3)) \cup
  X(X(O("element", {"joint", "marginal", "csv_row"}), N(1 .. 3)), M(-1 .. 3)) \cup
  X(X(X(O("likelihood", {""}), N(1 .. 3)), M(1 .. 3)), K(1 .. 3)) \cup
  X(X(X(O("normal_sample", {""}), N(1 .. 3)), M(1 .. 3)), K(1 .. 3)) \cup
  X(O("groups", {""}), G(Groups)) \cup
  X(X(O("reassemble", {"mean", "marginal", "joint"}), G(FewGroups)),
    {[a |-> s, b |-> k] : s \in [1 .. 1 -> 1 .. 2], k \in {<<0>>, <<1>>}} \cup
    {[a |-> s, b |-> k] : s \in [1 .. 2 -> 1 .. 2], k \in {<<0, 1>>, <<0, 2>>}} \cup {[a |-> <<1, 1, 1>>, b |-> <<0, 1, 2>>]}) \cup
  X(X(O("fold", {"free", "indexer"}), N(2 .. 3)), A({s \in Seqs(0 .. 3, 2) : s # <<>>})) \cup
  X(X(O("scores", {""}), G({g \in FewGroups : Partition(g) /\ Len(g) = 2})), A([1 .. 2 -> 1 .. 3])) \cup
  X(X(O("block_times", {"product", "solve", "sqrt_solve"}), A(Seqs(1 .. 2, 2) \ {<<>>})), N(1 .. 5)) \cup
  X(X(O("block_minus", {""}), A(Seqs(1 .. 2, 2) \ {<<>>})), B(Seqs(1 .. 2, 2) \ {<<>>})) \cup
  X(X(X(O("block_symmetric", {""}), N(1 .. 2)), M(1 .. 2)), K(1 .. 5)) \cup
  X(X(O("grouped_product", {"product", "inner"}), A({<<>>, <<0>>, <<1>>, <<0, 1>>, <<0, 2>>})), B({<<>>, <<0>>, <<1>>, <<0, 1>>, <<0, 2>>})) \cup
  X(X(O("grouped_minus", {""}), A({<<0>>, <<1>>, <<0, 1>>, <<0, 2>>})), B({<<0>>, <<1>>, <<0, 1>>, <<0, 2>>})) \cup
  X(O("stack", {""}), A(Seqs(1 .. 3, 3) \ {<<>>})) \cup
  X(O("one_value", {"set", "values"}), A(Seqs(0 .. 2, 3) \ {<<>>})) \cup
  X(X(O("strict_join", {""}), A(Seqs(0 .. 2, 2))), B(Seqs(0 .. 2, 2))) \cup
  X(O("sorted_keys", {""}), A(Seqs(0 .. 2, 3))) \cup
  X(X(O("forest", {""}), A({<<0, 1>>, <<0, 1, 2>>, <<1, 2>>})), B({<<0, 1>>, <<0, 1, 1, 2>>, <<1, 2>>, <<0, 2>>, <<0, 1, 0, 3>>})) \cup
  X(X(O("bounds", {""}), N(-3 .. 3)), M(-3 .. 3)) \cup X(X(O("log_bounds", {""}), N(-3 .. 3)), M(-3 .. 3)) \cup
  X(X(O("tunable_values", {""}), N(0 .. 3)), M(0 .. 3)) \cup
  X(O("degree", {"t", "t_basis", "u", "u_basis"}), N(-2 .. 3)) \cup
  X(O("distance", {"squared_exponential", "exponential", "matern_32", "matern_52"}), N(-2 .. 2)) \cup
  X(O("to_size", {""}), N(-2 .. 2)) \cup X(X(O("to_double", {"size", "index", "negative"}), N(1 .. 1)), M(-1 .. 1)) \cup
  X(O("columns", {""}), A({<<0, 1, 2>>, <<0, 2, 1>>, <<1, 0, 2>>, <<2, 1, 0>>, <<0, 1, 3>>, <<3, 1, 2>>, <<0, 3, 2>>})) \cup
  X(X(O("widths", {""}), N(4 .. 5)), A(Seqs(3 .. 6, 2))) \cup
  X(X(O("parameters_read", {""}), N(1 .. 3)), M(1 .. 3)) \cup
  X(X(O("parameters_named", {""}), N(1 .. 1)), A([1 .. 1 -> 0 .. 2])) \cup X(X(O("parameters_named", {""}), N(2 .. 2)), A([1 .. 2 -> 0 .. 3])) \cup
  X(O("finite_states", {""}), N(0 .. 4)) \cup X(O("not_a_number", {"off", "on", "noise"}), N(0 .. 1)) \cup
  X(O("inducing_points", {""}), N(0 .. 2)) \cup X(O("initialized", {""}), N(0 .. 1)) \cup
  X(X(O("exists", {"value", "prior", "parameter"}), N(1 .. 2)), M(0 .. 3)) \cup
  X(X(O("datasets", {""}), N(1 .. 3)), M(1 .. 3))
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[calls |-> <<c>>] : c \in Calls}))
\* the program: a call completes or ends it; nothing happens after its end
VARIABLES running, done
Init == running = TRUE /\ done = <<>>
Next == /\ running /\ Len(done) < Small
        /\ \E c \in {d \in Calls : d.op \in {"two", "element", "one_value", "bounds"}} :
             /\ running' = Valid(c)
             /\ done' = IF Valid(c) THEN Append(done, c) ELSE done
\* everything that completed was valid
Sound == \A i \in DOMAIN done : Valid(done[i])
Ended == [][running]_<<running, done>>
Agrees == Completed(done) = Len(done)
=============================================================================
