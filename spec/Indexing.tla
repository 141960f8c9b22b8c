------------------------------ MODULE Indexing ------------------------------
(***************************************************************************)
(* C08.  Selection by position (0-based), filters, per-element functions,  *)
(* sets of distinct values, and the small vector helpers.                  *)
(* A matrix is a sequence of rows.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts, Real

Pick(s, idx) == [m \in 1..Len(idx) |-> s[idx[m] + 1]]
PickRows(M, idx) == Pick(M, idx)
PickCols(M, idx) == [r \in 1..Len(M) |-> Pick(M[r], idx)]
PickBoth(M, ri, ci) == PickCols(PickRows(M, ri), ci)
\* writing: later writes win, unaddressed entries keep their value
RECURSIVE Write(_, _, _)
Write(to, idx, from) == IF idx = <<>> THEN to
                        ELSE Write([to EXCEPT ![Head(idx) + 1] = Head(from)], Tail(idx), Tail(from))
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Ascending(S \ {x})
Complement(idx, n) == Ascending((0..(n - 1)) \ RangeOf(idx))
Dist(s) == Ascending(RangeOf(s))
Count(s, x) == Cardinality({n \in DOMAIN s : s[n] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A n \in DOMAIN s : Count(s, s[n]) = Count(t, s[n])
\* a function is recorded by its calls <<argument, answer>>
ArgsOf(calls) == [n \in DOMAIN calls |-> calls[n][1]]
Answer(calls, x) == LET n == CHOOSE n \in DOMAIN calls : calls[n][1] = x IN calls[n][2]
AskedOnce(calls, xs) == SameBag(ArgsOf(calls), xs)
Kept(xs, calls) == SelectSeq(xs, LAMBDA x : Answer(calls, x))
Applied(xs, calls) == [n \in DOMAIN xs |-> Answer(calls, xs[n])]

\* contiguous blocks covering [0, size), block b ending near size sqrt(b / count)
TriangularPartition(out, size, count) ==
  /\ Len(out) = count
  /\ out[1][1] = 0 /\ out[count][2] = size
  /\ \A b \in 1..count : out[b][1] <= out[b][2]
  /\ \A b \in 1..(count - 1) : out[b][2] = out[b + 1][1]
  /\ \A b \in 1..count : RNear(out[b][2], RMul(size, RSqrt(RDiv(b, count))), "0", "1.001")

Start == 0
After(st, e) == st
Verdict(st, e) ==
  CASE e.op = "subset" -> FirstOf(<<
         Chk(e.out = Pick(e.xs, e.idx), "subset of a " \o e.kind),
         Chk(e.xs_after = e.xs, "subset changed its argument")>>)
    [] e.op = "subset_rows" -> Chk(e.out = PickRows(e.xs, e.idx), "subset of rows")
    [] e.op = "subset_cols" -> Chk(e.out = PickCols(e.xs, e.idx), "subset of columns")
    [] e.op = "subset_both" -> Chk(e.out = PickBoth(e.xs, e.rows, e.cols), "subset of rows and columns")
    [] e.op = "symmetric_subset" -> Chk(e.out = PickBoth(e.xs, e.idx, e.idx), "symmetric subset")
    [] e.op = "diagonal_subset" -> Chk(e.out = Pick(e.xs, e.idx), "symmetric subset of a diagonal matrix")
    [] e.op = "set_subset" -> FirstOf(<<
         Chk(e.out = Write(e.to, e.idx, e.from), "set_subset of a " \o e.kind),
         Chk(e.from_after = e.from, "set_subset changed its source")>>)
    [] e.op = "set_difference" -> Chk(e.out = Ascending(RangeOf(e.xs) \ RangeOf(e.ys)), "difference of " \o e.kind)
    [] e.op = "complement" -> Chk(e.out = Complement(e.idx, e.n), "complement of indices")
    [] e.op = "unique" -> Chk(e.out = Dist(e.xs), "distinct values")
    [] e.op = "unique_of" -> FirstOf(<<
         Chk(RangeOf(ArgsOf(e.calls)) = RangeOf(e.xs), "elements asked by unique_values"),
         Chk(e.out = Dist(Applied(e.xs, e.calls)), "distinct results of a function")>>)
    [] e.op = "unique_value" -> Chk(RangeOf(e.xs) = {e.out}, "the single value")
    [] e.op = "filter" -> FirstOf(<<
         Chk(AskedOnce(e.calls, e.xs), "filter asks once per element"),
         Chk(e.out = Kept(e.xs, e.calls), "elements kept from a " \o e.kind),
         Chk(e.xs_after = e.xs, "filter changed its argument")>>)
    [] e.op = "apply" -> FirstOf(<<
         Chk(AskedOnce(e.calls, e.xs), "apply calls once per element"),
         Chk(e.void \/ e.out = Applied(e.xs, e.calls), "results of apply")>>)
    [] e.op = "all" -> Chk(e.out = (\A n \in DOMAIN e.xs : e.xs[n]), "all")
    [] e.op = "any" -> Chk(e.out = (\E n \in DOMAIN e.xs : e.xs[n]), "any")
    [] e.op = "contains" -> Chk(e.out = (e.x \in RangeOf(e.xs)), "vector_contains")
    [] e.op = "linspace" -> FirstOf(<<
         Chk(Len(e.out) = e.n, "number of linspace points"),
         Chk(\A m \in 1..e.n : RNear(e.out[m], RAdd(e.a, IF e.n = 1 THEN "0" ELSE RDiv(RMul(RSub(e.b, e.a), m - 1), e.n - 1)),
                                     "0", RMul("1e-13", RMul(e.n, RAdd(RAbs(e.a), RAbs(e.b))))), "linspace points")>>)
    [] e.op = "to_size" -> Chk(RLeq(e.out, e.x) /\ RLt(e.x, RAdd(e.out, 1)), "safe_cast_to_size_t")
    [] e.op = "partition" -> Chk(TriangularPartition(e.out, e.size, e.count), "triangular partition")
=============================================================================
