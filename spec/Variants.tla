------------------------------ MODULE Variants ------------------------------
(***************************************************************************)
(* C05.  A tagged value is logged <<tag, value>>; a measured sequence is   *)
(* values xs with means y and (possibly) variances v, index by index.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts

\* indices holding a tag, in order
RECURSIVE IdxUpTo(_, _, _)
IdxUpTo(xs, tag, n) == IF n = 0 THEN <<>>
                       ELSE IdxUpTo(xs, tag, n - 1) \o (IF xs[n][1] = tag THEN <<n>> ELSE <<>>)
Idx(xs, tag) == IdxUpTo(xs, tag, Len(xs))
Pick(s, idx) == [n \in 1..Len(idx) |-> s[idx[n]]]
Extract(xs, tag) == Pick(xs, Idx(xs, tag))
Values(xs) == [n \in 1..Len(xs) |-> xs[n]]

Start == 0
After(st, e) == st
Verdict(st, e) ==
  CASE e.op = "extract" -> FirstOf(<<
         Chk(e.out = Extract(e.xs, e.tag), "extracted values"),
         Chk(e.xs_after = e.xs, "extraction changed its argument")>>)
    [] e.op = "extract_dataset" -> FirstOf(<<
         Chk(e.out = Extract(e.xs, e.tag), "extracted features"),
         Chk(e.mean = Pick(e.y, Idx(e.xs, e.tag)), "means of the extracted features"),
         Chk(e.var = Pick(e.v, Idx(e.xs, e.tag)), "variances of the extracted features"),
         Chk(e.xs_after = e.xs, "extraction changed its argument")>>)
    [] e.op = "wrap" -> FirstOf(<<               \* out lists the tagged values
         Chk(e.out = e.xs, "wrapped values"),
         Chk(e.xs_after = e.xs, "wrapping changed its argument")>>)
    [] e.op = "set" -> Chk(e.out = e.x, "value stored in the union")
    [] e.op = "set_many" -> Chk(e.out = e.xs, "values stored in the unions")
=============================================================================
