----------------------------- MODULE Compression ----------------------------
(***************************************************************************)
(* C03.  A frame carries a declared content size and a body.  Payloads are *)
(* logged as hex strings when short and as <<length, digest>> otherwise.   *)
(* For damaged frames the zstd library itself is the reference decoder:    *)
(* decoded = [ok, out] is what ZSTD_decompress makes of the same bytes     *)
(* when given a buffer of exactly the declared size ("none" if unknown).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Verdicts

Start == 0
After(st, e) == st
Verdict(st, e) ==
  CASE e.op = "roundtrip" -> FirstOf(<<
         Chk(e.out = e.data, "decompressed value differs from the original"),
         Chk(e.maybe_ok, "checked decompression rejected a valid frame"),
         Chk(e.maybe_out = e.data, "checked decompression returned another value"),
         Chk(e.data_after = e.data, "compression changed its input")>>)
    [] e.op = "array" -> FirstOf(<<
         Chk(e.out = e.data, "decompressed array differs from the original"),
         Chk(e.maybe_ok /\ e.maybe_out = e.data, "checked array decompression wrong"),
         Chk(e.guard, "decompression wrote outside the destination")>>)
    [] e.op = "array_wrong_size" -> FirstOf(<<
         Chk(~e.maybe_ok, "a frame was accepted for a destination of another size"),
         Chk(e.guard, "decompression wrote outside the destination"),
         Chk(e.died, "decompression into a destination of another size did not assert")>>)
    [] e.op = "damaged" -> FirstOf(<<
         Chk(e.threw = FALSE, "rejecting a damaged frame threw instead of reporting failure"),
         Chk(e.maybe_ok = e.ref_ok, IF e.ref_ok THEN "a decodable frame was rejected" ELSE "a damaged frame was accepted"),
         Chk(e.ref_ok => e.maybe_out = e.ref_out, "wrong value decoded"),
         Chk(e.array_ok = e.ref_ok, IF e.ref_ok THEN "a decodable frame was rejected (array)" ELSE "a damaged frame was accepted (array)"),
         Chk(e.ref_ok => e.array_out = e.ref_out, "wrong array decoded"),
         Chk(e.guard, "decompression wrote outside the destination"),
         Chk(e.kind \in {"truncate", "prefix", "append"} => ~e.ref_ok, "reference decoder accepted an incomplete frame"),
         IF "died" \in DOMAIN e THEN Chk(e.died = ~e.ref_ok, "asserting decompression did not assert exactly on failure") ELSE "">>)
=============================================================================
