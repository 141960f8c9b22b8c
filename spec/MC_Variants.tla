---------------------------- MODULE MC_Variants -----------------------------
(* The extraction loop as a state machine over every tag sequence; splitting *)
(* by all alternatives and merging back by position is the identity.         *)
EXTENDS Variants, Json, IOUtils, SequencesExt
CONSTANTS Tags, MaxLen
TagSeqs == UNION {[1..n -> Tags] : n \in 0..MaxLen}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[tags |-> t] : t \in TagSeqs}))
VARIABLES xs, want, n, out, idx
vars == <<xs, want, n, out, idx>>
Init == /\ \E t \in TagSeqs : xs = [m \in 1..Len(t) |-> <<t[m], m>>]
        /\ want \in Tags /\ n = 0 /\ out = <<>> /\ idx = <<>>
Next == /\ n < Len(xs) /\ n' = n + 1 /\ UNCHANGED <<xs, want>>
        /\ IF xs[n + 1][1] = want THEN out' = Append(out, xs[n + 1]) /\ idx' = Append(idx, n + 1)
           ELSE UNCHANGED <<out, idx>>
Refines == n = Len(xs) => out = Extract(xs, want) /\ idx = Idx(xs, want)
Lossless == \A m \in 1..Len(xs) :
  \E p \in DOMAIN Idx(xs, xs[m][1]) : Idx(xs, xs[m][1])[p] = m /\ Extract(xs, xs[m][1])[p] = xs[m]
=============================================================================
