---------------------------- MODULE MC_Grouping -----------------------------
(***************************************************************************)
(* The indexer is built one element at a time (a map from key to index     *)
(* list); every key sequence up to MaxLen over NKeys keys, in every order. *)
(* The finished map must be the defined one, be a partition, and folds and *)
(* recombination must lose nothing.  The sequences are the code's inputs.  *)
(***************************************************************************)
EXTENDS Grouping, Json, IOUtils, SequencesExt
CONSTANTS NKeys, MaxLen
KeySeqs == UNION {[1..n -> 0..(NKeys - 1)] : n \in 0..MaxLen}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[ks |-> t] : t \in KeySeqs}))
VARIABLES ks, m, ix
vars == <<ks, m, ix>>
Init == ks \in KeySeqs /\ m = 0 /\ ix = [k \in {} |-> <<>>]
Next == /\ m < Len(ks) /\ m' = m + 1 /\ UNCHANGED ks
        /\ LET k == ks[m + 1] IN
           ix' = [q \in DOMAIN ix \cup {k} |->
                   IF q # k THEN ix[q] ELSE (IF k \in DOMAIN ix THEN ix[k] ELSE <<>>) \o <<m>>]
Xs == [p \in 1..Len(ks) |-> 100 + p]
AsList == LET K == Ascending(DOMAIN ix) IN [p \in 1..Len(K) |-> <<K[p], ix[K[p]]>>]
Done == m = Len(ks)
BuilderIsDefinition == AsList = Indexer(SubSeq(ks, 1, m))
Partition == IsPartition(AsList, m)
FoldsAreComplements ==
  Done => \A p \in DOMAIN AsList :
    LET f == Fold(Xs, AsList[p][2])
    IN  RangeOf(f.test) \cap RangeOf(f.train) = {} /\ RangeOf(f.test) \cup RangeOf(f.train) = RangeOf(Xs)
        /\ Len(f.test) + Len(f.train) = Len(Xs)
RecombinationLosesNothing ==
  Done => LET r == Recombined(Xs, ks) IN Len(r) = Len(Xs) /\ RangeOf(r) = RangeOf(Xs)
Schemes ==
  Done => \A k \in 1..(MaxLen + 2) : LET q == SchemeKeys("k_fold", Len(ks), k)
                                     IN IsPartition(Indexer(q), Len(ks)) /\ Cardinality(RangeOf(q)) = IF k < Len(ks) THEN k ELSE Len(ks)
=============================================================================
