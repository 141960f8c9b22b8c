----------------------------- MODULE KeyedMaps ------------------------------
(***************************************************************************)
(* C01.  Maps are partial functions from integer keys to values.  A map is *)
(* logged as the sequence of its <<key, value>> pairs in iteration order,  *)
(* which for an ordered map is the order of its comparator ("asc"/"desc"). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts

Keys(m) == {m[n][1] : n \in DOMAIN m}
At(m, k) == LET n == CHOOSE n \in DOMAIN m : m[n][1] = k IN m[n][2]
Before(cmp, x, y) == IF cmp = "asc" THEN x < y ELSE x > y

\* ascending / descending enumeration of a finite set of integers
RECURSIVE Sorted(_, _)
Sorted(S, cmp) ==
  IF S = {} THEN <<>>
  ELSE LET x == CHOOSE x \in S : \A y \in S : x = y \/ Before(cmp, x, y)
       IN  <<x>> \o Sorted(S \ {x}, cmp)

Lists(S, cmp, f(_)) == LET q == Sorted(S, cmp) IN [n \in 1..Len(q) |-> <<q[n], f(q[n])>>]
IsMap(m, cmp) == \A n \in 1..(Len(m) - 1) : Before(cmp, m[n][1], m[n + 1][1])

\* ------------------------------------------------------------ definitions
Join(a, b, cmp) ==                                  \* b overrides a
  Lists(Keys(a) \cup Keys(b), cmp, LAMBDA k : IF k \in Keys(b) THEN At(b, k) ELSE At(a, k))
Difference(a, b, cmp) == Lists(Keys(a) \ Keys(b), cmp, LAMBDA k : At(a, k))
SymDifference(a, b, cmp) ==
  Lists((Keys(a) \ Keys(b)) \cup (Keys(b) \ Keys(a)), cmp,
        LAMBDA k : IF k \in Keys(a) THEN At(a, k) ELSE At(b, k))
Merge(f, k, x, y) ==
  CASE f = "left" -> x
    [] f = "right" -> y
    [] f = "kab" -> 10000 * k + 100 * x + y         \* called as merge(key, a, b)
    [] f = "ab" -> 100 * x - y                       \* called as merge(a, b)
    [] f = "pair" -> <<x, y>>
Union(a, b, cmp, f) ==
  Lists(Keys(a) \cup Keys(b), cmp,
        LAMBDA k : IF k \notin Keys(b) THEN At(a, k)
                   ELSE IF k \notin Keys(a) THEN At(b, k) ELSE Merge(f, k, At(a, k), At(b, k)))
Intersect(a, b, cmp, f) ==
  Lists(Keys(a) \cap Keys(b), cmp, LAMBDA k : Merge(f, k, At(a, k), At(b, k)))
Calls(a, b, cmp) ==                                  \* merge invocations, in order
  LET q == Sorted(Keys(a) \cap Keys(b), cmp)
  IN  [n \in 1..Len(q) |-> <<q[n], At(a, q[n]), At(b, q[n])>>]
RestrictTo(a, ks, cmp) == Lists(Keys(a) \cap RangeOf(ks), cmp, LAMBDA k : At(a, k))

\* --------------------------------------------------------------- events
Expected(e) ==
  CASE e.op = "contains" -> (e.k \in Keys(e.a))
    [] e.op = "at_or" -> (IF e.k \in Keys(e.a) THEN At(e.a, e.k) ELSE e.alt)
    [] e.op = "at_or_default" -> (IF e.k \in Keys(e.a) THEN At(e.a, e.k) ELSE 0)
    [] e.op = "keys" -> [n \in 1..Len(e.a) |-> e.a[n][1]]
    [] e.op = "values" -> [n \in 1..Len(e.a) |-> e.a[n][2]]
    [] e.op = "join" -> Join(e.a, e.b, e.cmp)
    [] e.op = "join_strict" -> Join(e.a, e.b, e.cmp)
    [] e.op = "difference" -> Difference(e.a, e.b, e.cmp)
    [] e.op = "symmetric_difference" -> SymDifference(e.a, e.b, e.cmp)
    [] e.op = "union" -> Union(e.a, e.b, e.cmp, e.merge)
    [] e.op = "intersect" -> Intersect(e.a, e.b, e.cmp, e.merge)
    [] e.op = "difference_keys" -> Sorted(Keys(e.a) \ Keys(e.b), e.cmp)
    [] e.op = "intersect_keys" -> Sorted(Keys(e.a) \cap Keys(e.b), e.cmp)
    [] e.op = "subset" -> RestrictTo(e.a, e.ks, e.cmp)
    [] e.op = "subset_sorted" -> RestrictTo(e.a, e.ks, e.cmp)

Start == 0
After(st, e) == st
Verdict(st, e) ==
  FirstOf(<<
    Chk(IF e.op \in {"keys", "values"} /\ e.cmp = "hash"
        THEN Len(e.out) = Len(e.a) /\ e.out = Expected(e)
        ELSE IF e.op \in {"join", "join_strict"} /\ e.cmp = "hash"
        THEN Len(e.out) = Len(Join(e.a, e.b, "asc")) /\ RangeOf(e.out) = RangeOf(Join(e.a, e.b, "asc"))
        ELSE e.out = Expected(e),
        "result of " \o e.op),
    IF "calls" \in DOMAIN e THEN Chk(e.calls = Calls(e.a, e.b, e.cmp), "merge calls of " \o e.op) ELSE "",
    IF "a_after" \in DOMAIN e THEN Chk(e.a_after = e.a, e.op \o " changed its left argument") ELSE "",
    IF "b_after" \in DOMAIN e THEN Chk(e.b_after = e.b, e.op \o " changed its right argument") ELSE ""
  >>)
=============================================================================
