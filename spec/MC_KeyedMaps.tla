---------------------------- MODULE MC_KeyedMaps ----------------------------
(***************************************************************************)
(* The linear merge of two ordered containers, one action per branch of    *)
(* the loop, checked against the definitions in KeyedMaps for all pairs of *)
(* maps over NKeys keys; the same pairs are emitted as inputs for the code *)
(***************************************************************************)
EXTENDS KeyedMaps, Json, IOUtils, SequencesExt
CONSTANT NKeys
MapOn(S, cmp, base) == Lists(S, cmp, LAMBDA x : base + x)
Domains == SUBSET (1..NKeys)
Inputs == {[a |-> MapOn(S, "asc", 100), b |-> MapOn(T, "asc", 200)] : S \in Domains, T \in Domains}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))

VARIABLES a, b, cmp, ai, bi, onlyA, onlyB, both
vars == <<a, b, cmp, ai, bi, onlyA, onlyB, both>>
Init ==
  /\ cmp \in {"asc", "desc"}
  /\ \E S \in Domains, T \in Domains : a = MapOn(S, cmp, 100) /\ b = MapOn(T, cmp, 200)
  /\ ai = 1 /\ bi = 1 /\ onlyA = <<>> /\ onlyB = <<>> /\ both = <<>>
TakeA == /\ ai <= Len(a) /\ (IF bi > Len(b) THEN TRUE ELSE Before(cmp, a[ai][1], b[bi][1]))
         /\ onlyA' = Append(onlyA, a[ai]) /\ ai' = ai + 1 /\ UNCHANGED <<a, b, cmp, bi, onlyB, both>>
TakeB == /\ bi <= Len(b) /\ (IF ai > Len(a) THEN TRUE ELSE Before(cmp, b[bi][1], a[ai][1]))
         /\ onlyB' = Append(onlyB, b[bi]) /\ bi' = bi + 1 /\ UNCHANGED <<a, b, cmp, ai, onlyA, both>>
TakeBoth == /\ ai <= Len(a) /\ bi <= Len(b) /\ a[ai][1] = b[bi][1]
            /\ both' = Append(both, <<a[ai][1], a[ai][2], b[bi][2]>>)
            /\ ai' = ai + 1 /\ bi' = bi + 1 /\ UNCHANGED <<a, b, cmp, onlyA, onlyB>>
Next == TakeA \/ TakeB \/ TakeBoth
Done == ai > Len(a) /\ bi > Len(b)

MergeIsDefinition ==
  Done => /\ onlyA = Difference(a, b, cmp)
          /\ onlyB = Difference(b, a, cmp)
          /\ both = Calls(a, b, cmp)
Progress == ~Done => ENABLED Next
\* laws of the definitions themselves
Laws ==
  /\ Keys(Union(a, b, cmp, "left")) = Keys(a) \cup Keys(b)
  /\ IsMap(Union(a, b, cmp, "left"), cmp) /\ IsMap(SymDifference(a, b, cmp), cmp)
  /\ Union(a, b, cmp, "left") = Union(b, a, cmp, "right")
  /\ Join(a, b, cmp) = Union(a, b, cmp, "right")
  /\ Join(Difference(a, b, cmp), Intersect(a, b, cmp, "left"), cmp) = a
  /\ RestrictTo(a, [n \in 1..Len(b) |-> b[n][1]], cmp) = Intersect(a, b, cmp, "left")
=============================================================================
