---------------------------- MODULE MC_Datasets -----------------------------
(***************************************************************************)
(* Every history of Depth dataset operations from every pair of small      *)
(* datasets: whatever the chain, every row present was a row of one of the *)
(* initial datasets, deduplicated data has no repeated feature and aligned *)
(* data agree feature by feature.                                          *)
(***************************************************************************)
EXTENDS Datasets, Json, IOUtils, SequencesExt
CONSTANTS Fs, MaxLen, Depth, GenDepth
FeatSeqs == UNION {[1..n -> Fs] : n \in 0..MaxLen}
OpNames == {"reverse", "evens", "twice", "deduplicate", "filter", "regroup", "concatenate", "swap", "align"}
ASSUME ndJsonSerialize(IOEnv.GEN,
  SetToSeq({[a |-> p, b |-> q, ops |-> h] : p \in FeatSeqs, q \in {<<>>, <<1, 2>>, <<2, 2, 1>>}, h \in [1..GenDepth -> OpNames]}))
Rows(t, base) == [n \in DOMAIN t |-> <<t[n], base + n, 2 * base + n>>]
Id == [f \in Fs |-> f]
Parity == [f \in Fs |-> f % 2]
VARIABLES a, b, a0, b0, d, last
vars == <<a, b, a0, b0, d, last>>
Init == /\ \E p \in FeatSeqs, q \in FeatSeqs : a0 = Rows(p, 10) /\ b0 = Rows(q, 100)
        /\ a = a0 /\ b = b0 /\ d = 0 /\ last = "start"
Seqs(n) == [m \in 1..n |-> m - 1]
Next ==
  /\ d < Depth /\ d' = d + 1 /\ UNCHANGED <<a0, b0>>
  /\ \E o \in OpNames : last' = o /\
     CASE o = "reverse" -> a' = Pick(a, [m \in 1..Len(a) |-> Len(a) - m]) /\ b' = b
       [] o = "evens" -> a' = Pick(a, SelectSeq(Seqs(Len(a)), LAMBDA m : m % 2 = 0)) /\ b' = b
       [] o = "twice" -> a' = Pick(a, Seqs(Len(a)) \o Seqs(Len(a))) /\ b' = b
       [] o = "deduplicate" -> a' = Dedup(a) /\ b' = b
       [] o = "filter" -> a' = FilterF(a, {f \in Fs : f # 1}) /\ b' = b
       [] o = "regroup" -> a' = Regrouped(a, Parity) /\ b' = b
       [] o = "concatenate" -> a' = a \o b /\ b' = b
       [] o = "swap" -> a' = b /\ b' = a
       [] o = "align" -> IF HasDistinct(a) /\ HasDistinct(b) THEN a' = AlignA(a, b, Id) /\ b' = AlignB(a, b, Id)
                         ELSE UNCHANGED <<a, b>>
NothingInvented == RangeOf(a) \cup RangeOf(b) \subseteq RangeOf(a0) \cup RangeOf(b0)
DedupDistinct == last = "deduplicate" => HasDistinct(a)
AlignedAgree == (last = "align" /\ HasDistinct(a) /\ HasDistinct(b)) => Feats(a) = Feats(b)
AlignIsGeneral == (HasDistinct(a) /\ HasDistinct(b)) => AlignedPairs(AlignA(a, b, Id), AlignB(a, b, Id), a, b, Id)
Regroups == LET r == Regrouped(a, Parity) IN Len(r) = Len(a) /\ RangeOf(r) = RangeOf(a)
=============================================================================
