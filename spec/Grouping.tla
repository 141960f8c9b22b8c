------------------------------ MODULE Grouping ------------------------------
(***************************************************************************)
(* C06.  A collection of n elements (element i is logged as the pair of    *)
(* its identity and its measurement) and the key the grouping function     *)
(* gives to each of them; keys are logged as their rank in the key type's  *)
(* order.  Positions are 0-based as in the code.                           *)
(* State: the collection under study, [n, xs, ks].                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts

\* ------------------------------------------------------------ definitions
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})
RECURSIVE PosUpTo(_, _, _)
PosUpTo(ks, k, n) == IF n = 0 THEN <<>>
                     ELSE PosUpTo(ks, k, n - 1) \o (IF ks[n] = k THEN <<n - 1>> ELSE <<>>)
Positions(ks, k) == PosUpTo(ks, k, Len(ks))
KeyList(ks) == Ascending(RangeOf(ks))
Indexer(ks) == LET K == KeyList(ks) IN [m \in 1..Len(K) |-> <<K[m], Positions(ks, K[m])>>]
SchemeKeys(scheme, n, k) ==
  IF scheme = "leave_one_out" THEN [m \in 1..n |-> m - 1] ELSE [m \in 1..n |-> (m - 1) % k]

Pick(s, idx) == [m \in 1..Len(idx) |-> s[idx[m] + 1]]
MapValues(f(_), m) == [x \in 1..Len(m) |-> <<m[x][1], f(m[x][2])>>]
Groups(xs, ks) == MapValues(LAMBDA idx : Pick(xs, idx), Indexer(ks))
Complement(idx, n) == Ascending((0..(n - 1)) \ RangeOf(idx))
Fold(xs, idx) == [test_indices |-> idx, test |-> Pick(xs, idx), train |-> Pick(xs, Complement(idx, Len(xs)))]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
Recombined(xs, ks) == LET g == Groups(xs, ks) IN Flatten([m \in 1..Len(g) |-> g[m][2]])

\* the partition laws themselves (checked on the definitions by MC_Grouping)
IsPartition(ix, n) ==
  /\ \A m \in DOMAIN ix : ix[m][2] # <<>>
  /\ UNION {RangeOf(ix[m][2]) : m \in DOMAIN ix} = 0..(n - 1)
  /\ \A m, l \in DOMAIN ix : m # l => RangeOf(ix[m][2]) \cap RangeOf(ix[l][2]) = {}
  /\ \A m \in DOMAIN ix : \A p \in 1..(Len(ix[m][2]) - 1) : ix[m][2][p] < ix[m][2][p + 1]

\* ---------------------------------------------------------------- actions
Start == [xs |-> <<>>, ks |-> <<>>]
After(st, e) ==
  IF e.op = "start" THEN [xs |-> e.xs, ks |-> e.ks]
  ELSE IF e.op = "scheme" THEN [xs |-> st.xs, ks |-> SchemeKeys(e.scheme, Len(st.xs), e.k)]
  ELSE st

AtKey(g, k) == LET m == CHOOSE m \in DOMAIN g : g[m][1] = k IN g[m][2]
Zip(s, t) == [m \in 1..Len(s) |-> <<s[m], t[m]>>]
OneFold(f, xs, idx) ==
  LET d == Fold(xs, idx) IN FirstOf(<<
    Chk(f.test_indices = d.test_indices, "test indices of a fold"),
    Chk(f.test = d.test, "test data of a fold"),
    Chk(f.train = d.train, "training data of a fold is the complement of its test data")>>)
AllFolds(out, xs, ix) ==
  FirstOf(<<Chk(Len(out) = Len(ix) /\ \A m \in 1..Len(out) : out[m][1] = ix[m][1], "keys of the folds")>> \o
          (IF Len(out) = Len(ix) THEN [m \in 1..Len(ix) |-> OneFold(out[m][2], xs, ix[m][2])] ELSE <<>>))

Verdict(st, e) ==
  LET xs == st.xs
      ks == st.ks
      ix == Indexer(ks)
  IN
  CASE e.op \in {"start", "scheme"} -> ""
    [] e.op = "indexers" -> Chk(e.out = ix, "index lists of the groups (" \o e.kind \o ")")
    [] e.op = "keys" -> Chk(e.out = KeyList(ks), "group keys")
    [] e.op = "size" -> Chk(e.out = Cardinality(RangeOf(ks)), "number of groups")
    [] e.op = "counts" -> Chk(e.out = MapValues(LAMBDA idx : Len(idx), ix), "group counts")
    [] e.op = "groups" -> Chk(e.out = Groups(xs, ks), "values of the groups (" \o e.kind \o ")")
    [] e.op = "get_group" -> Chk(e.out = Pick(xs, Positions(ks, e.key)), "values of one group")
    [] e.op = "first_group" -> Chk(e.out = Groups(xs, ks)[1], "first group")
    [] e.op = "with" -> \* a second collection ys, grouped along
         Chk(e.out = MapValues(LAMBDA idx : <<Pick(xs, idx), Pick(e.ys, idx)>>, ix), "groups together with a second collection")
    [] e.op = "with_grouped" -> \* zs is keyed like the groups
         Chk(e.out = [m \in 1..Len(ix) |-> <<ix[m][1], <<Pick(xs, ix[m][2]), AtKey(e.zs, ix[m][1])>>>>], "groups together with grouped values")
    [] e.op = "index_apply" -> \* calls of the function, and a function of them as result
         FirstOf(<<Chk(e.calls = ix, "index_apply calls the function once per group with its key and indices"),
                   Chk(e.out = MapValues(LAMBDA idx : e.calls_result[Len(idx)], ix), "index_apply result")>>)
    [] e.op = "recombined" -> Chk(e.out = Recombined(xs, ks), "recombining the groups")
    [] e.op = "indices_from_groups" ->
         Chk(e.out = Flatten([m \in 1..Len(e.keys) |-> Positions(ks, e.keys[m])]), "indices of the listed groups")
    [] e.op = "create_fold" -> OneFold(e.out, xs, e.idx)
    [] e.op = "folds" -> AllFolds(e.out, xs, ix)
    [] e.op = "folds_by_hand" -> AllFolds(e.out, xs, e.ix)
    [] e.op = "indexer_from_folds" -> Chk(e.out = ix, "indexer recovered from folds")
    [] e.op = "unique_indices" -> Chk(e.out = Ascending(0..(Len(xs) - 1)), "indices covered by the groups")
    [] e.op = "dataset_size" -> Chk(e.out = Len(xs), "data size recovered from " \o e.kind)
    [] e.op = "unchanged" -> Chk(e.xs = xs, "grouping changed its argument")
=============================================================================
