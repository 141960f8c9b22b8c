-------------------------- MODULE MC_Serialization --------------------------
(***************************************************************************)
(* All short archives: contents of a few kinds (0 empty, 1 one element,    *)
(* 2 ordinary, 3 not finite, 4 other shapes), read into fresh (-1) or used *)
(* cells.  Checked: reading in order gives back the archive whatever the   *)
(* cells held.  Emitted: one script per archive and choice of cells.       *)
(***************************************************************************)
EXTENDS Serialization, Json, IOUtils, SequencesExt, FiniteSets
CONSTANTS MaxLen
Kinds == 0..4
Dirty == {-1} \cup Kinds
Scripts == UNION {{[writes |-> w, cells |-> c] : w \in [1..n -> Kinds], c \in [1..n -> Dirty]} : n \in 1..MaxLen}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Scripts))

VARIABLES st, wrote, got, cell
vars == <<st, wrote, got, cell>>
Value(k) == [is |-> k, does |-> <<>>]
Init == st = Start /\ wrote = <<>> /\ got = <<>> /\ cell \in Dirty
Write == /\ ~st.reading /\ Len(wrote) < MaxLen
         /\ \E k \in Kinds : /\ Verdict(st, [op |-> "write", value |-> Value(k)]) = ""
                             /\ st' = After(st, [op |-> "write", value |-> Value(k)]) /\ wrote' = Append(wrote, k)
         /\ UNCHANGED <<got, cell>>
\* a reader that takes what the specification allows: the only choice is where to
Read == /\ st.next <= Len(st.archive)
        /\ \E d \in Dirty, k \in Kinds :
             LET s == After(st, [op |-> "cell", fresh |-> d = -1]) e == [op |-> "read", value |-> Value(k)] IN
             /\ Verdict(s, e) = "" /\ st' = After(s, e) /\ got' = Append(got, k) /\ cell' = k
        /\ UNCHANGED wrote
Next == Write \/ Read
Faithful == \A i \in 1..Len(got) : got[i] = wrote[i]
LastCell == got # <<>> => cell = wrote[Len(got)]
CanFinish == (st.reading /\ st.next <= Len(st.archive)) => ENABLED Read
=============================================================================
