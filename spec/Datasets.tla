------------------------------ MODULE Datasets ------------------------------
(***************************************************************************)
(* C09.  A dataset is logged as the sequence of its rows <<feature, mean,  *)
(* variance>>: an operation that separates a feature from its measurement  *)
(* cannot produce the row sequence these definitions prescribe.            *)
(* State: two datasets a and b; transitions are the dataset operations.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts

Feat(r) == r[1]
Feats(d) == [n \in DOMAIN d |-> Feat(d[n])]
Pick(d, idx) == [m \in 1..Len(idx) |-> d[idx[m] + 1]]
\* of equal features the last one stays
RECURSIVE Dedup(_)
Dedup(d) == IF d = <<>> THEN <<>>
            ELSE (IF Feat(Head(d)) \in RangeOf(Feats(Tail(d))) THEN <<>> ELSE <<Head(d)>>) \o Dedup(Tail(d))
FilterF(d, keep) == SelectSeq(d, LAMBDA r : Feat(r) \in keep)
HasDistinct(d) == Cardinality(RangeOf(Feats(d))) = Len(d)
RowOf(d, f) == LET n == CHOOSE n \in DOMAIN d : Feat(d[n]) = f IN d[n]
\* alignment of datasets without repeated features; same(f, g) is a one-to-one relation key(f) = key(g)
AlignA(a, b, key) == SelectSeq(a, LAMBDA r : \E n \in DOMAIN b : key[Feat(b[n])] = key[Feat(r)])
AlignB(a, b, key) == LET x == AlignA(a, b, key)
                     IN [n \in DOMAIN x |-> LET p == CHOOSE p \in DOMAIN b : key[Feat(b[p])] = key[Feat(x[n])] IN b[p]]
KeysDistinct(d, key) == Cardinality({key[f] : f \in RangeOf(Feats(d))}) = Len(d)
AlignedPairs(x, y, a, b, key) ==      \* what alignment means in general
  /\ Len(x) = Len(y)
  /\ RangeOf(x) \subseteq RangeOf(a) /\ RangeOf(y) \subseteq RangeOf(b)
  /\ \A n \in DOMAIN x : key[Feat(x[n])] = key[Feat(y[n])]
  /\ {key[f] : f \in RangeOf(Feats(x))} = {key[f] : f \in RangeOf(Feats(a))} \cap {key[f] : f \in RangeOf(Feats(b))}
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})
\* group by a key of the feature and put the groups together again, in key order
Regrouped(d, key) == LET K == Ascending({key[f] : f \in RangeOf(Feats(d))})
                     IN Flatten([n \in DOMAIN K |-> SelectSeq(d, LAMBDA r : key[Feat(r)] = K[n])])
Tagged(tag, d) == [n \in DOMAIN d |-> <<<<tag, d[n][1]>>, d[n][2], d[n][3]>>]

Start == [a |-> <<>>, b |-> <<>>]
After(st, e) ==
  CASE e.op = "start" -> [a |-> e.a, b |-> e.b]
    [] e.op = "swap" -> [a |-> st.b, b |-> st.a]
    [] e.op \in {"subset", "filter", "deduplicate", "regroup", "concatenate", "concatenate_many"} -> [st EXCEPT !.a = e.out]
    [] e.op = "align" -> [a |-> e.a, b |-> e.b]
    [] OTHER -> st
Verdict(st, e) ==
  LET a == st.a
      b == st.b
  IN
  CASE e.op \in {"start", "swap"} -> ""
    [] e.op = "create" -> FirstOf(<<
         Chk(e.features = Feats(a) /\ e.mean = [n \in DOMAIN a |-> a[n][2]] /\ e.var = [n \in DOMAIN a |-> a[n][3]], "construction of a dataset"),
         Chk(e.size = Len(a), "size of a dataset"),
         Chk(e.equal_to_self, "equality of datasets"),
         Chk(Len(a) > 0 => ~e.equal_to_changed_feature /\ ~e.equal_to_changed_mean /\ ~e.equal_to_changed_var, "inequality of datasets")>>)
    [] e.op = "subset" -> Chk(e.out = Pick(a, e.idx) /\ e.source = a, "subset of a dataset")
    [] e.op = "filter" -> Chk(e.out = FilterF(a, RangeOf(e.keep)) /\ e.source = a, "filtered dataset")
    [] e.op = "deduplicate" -> Chk(e.out = Dedup(a) /\ e.source = a, "dataset without repeated features")
    [] e.op = "regroup" -> FirstOf(<<
         Chk(\A n \in DOMAIN e.groups : e.groups[n][2] = SelectSeq(a, LAMBDA r : e.key[Feat(r)] = e.groups[n][1]), "grouped dataset"),
         Chk(e.out = Regrouped(a, e.key), "recombined dataset")>>)
    [] e.op = "concatenate" -> Chk(e.out = a \o b /\ e.source = a, "concatenated datasets")
    [] e.op = "concatenate_many" -> Chk(e.out = Flatten([n \in DOMAIN e.parts |-> e.parts[n]]), "list of concatenated datasets")
    [] e.op = "concatenate_types" -> \* two or more feature types, kept apart by a tag
         Chk(e.out = Tagged(e.tag_a, a) \o Tagged(e.tag_b, b), "datasets of different feature types concatenated (" \o e.kind \o ")")
    [] e.op = "align" -> FirstOf(<<
         Chk(AlignedPairs(e.a, e.b, a, b, e.key), "aligned datasets hold equal features and their own measurements"),
         Chk((KeysDistinct(a, e.key) /\ KeysDistinct(b, e.key)) => e.a = AlignA(a, b, e.key) /\ e.b = AlignB(a, b, e.key),
             "order and content of aligned datasets")>>)
    [] e.op = "concatenate_vectors" -> Chk(e.out = e.xs \o e.ys, "concatenated vectors (" \o e.kind \o ")")
    [] e.op = "concatenate_lists" -> Chk(e.out = Flatten(e.parts), "concatenated list of vectors")
    [] e.op = "print" -> FirstOf(<<
         Chk(Len(e.lines) = Len(a), "one printed line per element"),
         Chk(\A n \in DOMAIN a : Len(e.lines) = Len(a) => e.lines[n][1] = a[n][1] /\ e.lines[n][2] = a[n][2] /\ e.lines[n][3] = a[n][3], "printed feature, mean and variance")>>)
=============================================================================
