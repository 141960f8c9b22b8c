--------------------------- MODULE MC_Compression ---------------------------
(***************************************************************************)
(* The decompression protocol as a state machine against a faulty channel: *)
(* sender frames a payload, the channel may truncate, extend or retarget   *)
(* it, the receiver reads the declared size, compares it with the          *)
(* destination, decodes and compares the decoded size.  Invariant: success *)
(* is reported only with the sender's payload in the destination.          *)
(* Emits fault plans (which fault, where, destination size) for the driver *)
(***************************************************************************)
EXTENDS Compression, Json, IOUtils, SequencesExt
CONSTANTS MaxLen
Payloads == UNION {[1..n -> {0, 1}] : n \in 0..MaxLen}
Plans == {[len |-> n, level |-> l, kind |-> f, at |-> a, dest |-> d] :
            n \in {0, 1, 2, 3, 17, 300}, l \in {-7, 1, 3, 22},
            f \in {"none", "truncate", "prefix", "append", "flip", "zero", "duplicate"},
            a \in 0..13, d \in {0}}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Plans))

VARIABLES pc, sent, body, declared, dest, out, result
vars == <<pc, sent, body, declared, dest, out, result>>
Init == /\ sent \in Payloads /\ body = sent /\ declared = Len(sent)
        /\ dest \in 0..MaxLen /\ pc = "wire" /\ out = <<>> /\ result = "none"
Truncate == pc = "wire" /\ body # <<>> /\ body' = SubSeq(body, 1, Len(body) - 1) /\ UNCHANGED <<pc, sent, declared, dest, out, result>>
Extend == pc = "wire" /\ Len(body) <= MaxLen /\ \E x \in {0, 1} : body' = Append(body, x) /\ UNCHANGED <<pc, sent, declared, dest, out, result>>
LoseHeader == pc = "wire" /\ declared' = -1 /\ UNCHANGED <<pc, sent, body, dest, out, result>>
ReadSize == /\ pc = "wire" /\ pc' = IF declared = -1 \/ declared # dest THEN "done" ELSE "decode"
            /\ result' = IF declared = -1 \/ declared # dest THEN "failed" ELSE "none"
            /\ UNCHANGED <<sent, body, declared, dest, out>>
Decode == /\ pc = "decode" /\ pc' = "done" /\ out' = body
          /\ result' = (IF Len(body) = dest THEN "ok" ELSE "failed")
          /\ UNCHANGED <<sent, body, declared, dest>>
Next == Truncate \/ Extend \/ LoseHeader \/ ReadSize \/ Decode
SizeHonest == result = "ok" => Len(out) = Len(sent) /\ Len(out) = dest
NoSilentLoss == (result = "ok" /\ body = sent) => out = sent
Settles == pc = "done" => result \in {"ok", "failed"}
=============================================================================
