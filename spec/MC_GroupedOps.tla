--------------------------- MODULE MC_GroupedOps ----------------------------
(***************************************************************************)
(* Every history of Depth operations on a container over a small key set.  *)
(* The container, held as a sequence, must stay the ordered image of the   *)
(* partial function which the same operations define.                      *)
(***************************************************************************)
EXTENDS GroupedOps, Json, IOUtils, SequencesExt
CONSTANTS Ks, Vs, Depth
Ops == [op : {"emplace", "set"}, key : Ks, val : Vs] \cup [op : {"touch", "erase"}, key : Ks]
       \cup [op : {"filter"}, kept : (SUBSET Ks)] \cup {[op |-> "apply"]}
Histories == UNION {[1..d -> Ops] : d \in 0..Depth}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[ops |-> h] : h \in [1..Depth -> Ops]}))

VARIABLES m, f, d
vars == <<m, f, d>>
Init == m = <<>> /\ f = [k \in {} |-> 0] /\ d = 0
With(g, k, v) == [q \in DOMAIN g \cup {k} |-> IF q = k THEN v ELSE g[q]]
Without(g, S) == [q \in DOMAIN g \cap S |-> g[q]]
Do(o) ==
  CASE o.op = "emplace" -> m' = Emplace(m, o.key, o.val) /\ f' = IF o.key \in DOMAIN f THEN f ELSE With(f, o.key, o.val)
    [] o.op = "set" -> m' = Put(m, o.key, o.val) /\ f' = With(f, o.key, o.val)
    [] o.op = "touch" -> m' = Default(m, o.key, 0) /\ f' = IF o.key \in DOMAIN f THEN f ELSE With(f, o.key, 0)
    [] o.op = "erase" -> m' = Erase(m, o.key) /\ f' = Without(f, Ks \ {o.key})
    [] o.op = "filter" -> m' = Keep(m, LAMBDA k, v : k \in o.kept) /\ f' = Without(f, o.kept)
    [] o.op = "apply" -> m' = MapTo(m, LAMBDA k, v : v + k) /\ f' = [k \in DOMAIN f |-> f[k] + k]
Next == d < Depth + 1 /\ d' = d + 1 /\ \E o \in Ops : Do(o)
IsImage == Ordered(m) /\ Keys(m) = DOMAIN f /\ \A k \in DOMAIN f : AtKey(m, k) = f[k]
Complementary ==
  \A S \in SUBSET Ks : LET a == Keep(m, LAMBDA k, v : k \in S)
                           b == Keep(m, LAMBDA k, v : k \notin S)
                       IN RangeOf(a) \cup RangeOf(b) = RangeOf(m) /\ Len(a) + Len(b) = Len(m)
=============================================================================
