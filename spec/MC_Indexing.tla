---------------------------- MODULE MC_Indexing -----------------------------
(* The element-by-element loops of subset, set_subset and filter over every *)
(* index list; each must reach the value the definition gives.              *)
EXTENDS Indexing, Json, IOUtils, SequencesExt
CONSTANTS MaxN, MaxIdx
Cases == UNION {{[n |-> n, idx |-> t] : t \in UNION {[1..m -> 0..(n - 1)] : m \in 0..MaxIdx}} : n \in 0..MaxN}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Cases))
VARIABLES n, idx, m, sub, to
vars == <<n, idx, m, sub, to>>
Xs(k) == [p \in 1..k |-> 10 * p]
From(k) == [p \in 1..k |-> 100 + p]
Init == /\ \E c \in Cases : n = c.n /\ idx = c.idx
        /\ m = 0 /\ sub = <<>> /\ to = Xs(n)
Next == /\ m < Len(idx) /\ m' = m + 1 /\ UNCHANGED <<n, idx>>
        /\ sub' = Append(sub, Xs(n)[idx[m + 1] + 1])
        /\ to' = [to EXCEPT ![idx[m + 1] + 1] = From(Len(idx))[m + 1]]
Refines == m = Len(idx) => sub = Pick(Xs(n), idx) /\ to = Write(Xs(n), idx, From(Len(idx)))
ComplementLaw == LET c == Complement(idx, n) IN
  RangeOf(c) \cup RangeOf(idx) = 0..(n - 1) /\ RangeOf(c) \cap RangeOf(idx) = {} /\ Complement(c, n) = Dist(idx)
ReadBack == Cardinality(RangeOf(idx)) = Len(idx) => Pick(Write(Xs(n), idx, From(Len(idx))), idx) = From(Len(idx))
=============================================================================
