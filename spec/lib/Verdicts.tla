------------------------------ MODULE Verdicts ------------------------------
(* A verdict is "" (the event is allowed) or the name of the violated clause. *)
LOCAL INSTANCE Sequences
LOCAL INSTANCE Integers
Chk(ok, clause) == IF ok THEN "" ELSE clause
RECURSIVE FirstOf(_)
FirstOf(s) == IF s = <<>> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE FirstOf(Tail(s))
RangeOf(s) == {s[i] : i \in DOMAIN s}
IsSeqOf(s, n) == Len(s) = n
=============================================================================
