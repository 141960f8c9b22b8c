----------------------------- MODULE GroupedOps -----------------------------
(***************************************************************************)
(* C07.  State: a grouped container, logged in iteration order as the      *)
(* sequence of its <<key, value>> pairs (keys as ranks in the key type's   *)
(* order).  Mutating operations (emplace, [], erase) and the operations    *)
(* that build a new container (filter, apply) are transitions; everything  *)
(* else observes the current container.  A function handed to the library  *)
(* logs its calls; calls is the list of <<arguments.., answer>>.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts, Real

Keys(m) == {m[n][1] : n \in DOMAIN m}
AtKey(m, k) == LET n == CHOOSE n \in DOMAIN m : m[n][1] = k IN m[n][2]
KeyList(m) == [n \in 1..Len(m) |-> m[n][1]]
ValList(m) == [n \in 1..Len(m) |-> m[n][2]]
Ordered(m) == \A n \in 1..(Len(m) - 1) : m[n][1] < m[n + 1][1]
RECURSIVE Put(_, _, _)          \* insert or overwrite
Put(m, k, v) == IF m = <<>> THEN <<<<k, v>>>>
                ELSE IF k < Head(m)[1] THEN <<<<k, v>>>> \o m
                ELSE IF k = Head(m)[1] THEN <<<<k, v>>>> \o Tail(m)
                ELSE <<Head(m)>> \o Put(Tail(m), k, v)
Emplace(m, k, v) == IF k \in Keys(m) THEN m ELSE Put(m, k, v)
Keep(m, p(_, _)) == SelectSeq(m, LAMBDA kv : p(kv[1], kv[2]))
Erase(m, k) == Keep(m, LAMBDA q, v : q # k)
Default(m, k, d) == IF k \in Keys(m) THEN m ELSE Put(m, k, d)
MapTo(m, f(_, _)) == [n \in 1..Len(m) |-> <<m[n][1], f(m[n][1], m[n][2])>>]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))

RECURSIVE RSumOf(_)
RSumOf(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSumOf(Tail(s)))

\* bags as sequences
Count(s, x) == Cardinality({n \in DOMAIN s : s[n] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A n \in DOMAIN s : Count(s, s[n]) = Count(t, s[n])

\* the arguments of a call: <<k, v>> or <<v>>; the answer comes last
ArgsOf(calls) == [n \in DOMAIN calls |-> SubSeq(calls[n], 1, Len(calls[n]) - 1)]
Given(m, arity) == [n \in DOMAIN m |-> IF arity = 2 THEN m[n] ELSE <<m[n][2]>>]
AnswerFor(calls, args) == LET n == CHOOSE n \in DOMAIN calls : SubSeq(calls[n], 1, Len(calls[n]) - 1) = args
                          IN calls[n][Len(calls[n])]
Answer(e, k, v) == AnswerFor(e.calls, IF e.arity = 2 THEN <<k, v>> ELSE <<v>>)
FilterBy(m, e) == Keep(m, LAMBDA k, v : Answer(e, k, v))
ApplyBy(m, e) == MapTo(m, LAMBDA k, v : Answer(e, k, v))

Start == <<>>
After(st, e) ==
  CASE e.op = "make" -> e.out
    [] e.op = "emplace" -> Emplace(st, e.key, e.val)
    [] e.op = "set" -> Put(st, e.key, e.val)
    [] e.op = "touch" -> Default(st, e.key, e.default)
    [] e.op = "erase" -> Erase(st, e.key)
    [] e.op = "filter" -> IF e.keep THEN FilterBy(st, e) ELSE st
    [] e.op = "apply" -> IF e.keep THEN ApplyBy(st, e) ELSE st
    [] OTHER -> st

Verdict(st, e) ==
  CASE e.op = "make" -> Chk(Ordered(e.out), "keys of a new container")
    [] e.op \in {"emplace", "set"} -> ""
    [] e.op = "touch" -> Chk(e.out = AtKey(Default(st, e.key, e.default), e.key), "operator[]")
    [] e.op = "erase" -> Chk(e.out = IF e.key \in Keys(st) THEN 1 ELSE 0, "number of erased groups")
    [] e.op = "observe" -> FirstOf(<<
         Chk(e.iterated = st, "iteration over the groups"),
         Chk(e.map = st, "underlying map"),
         Chk(e.keys = KeyList(st), "keys"),
         Chk(e.values = ValList(st), "values"),
         Chk(e.size = Len(st), "size"),
         Chk(e.equal_to_copy /\ ~e.equal_to_other, "equality of grouped containers")>>)
    [] e.op = "lookup" -> FirstOf(<<
         Chk(e.found = (e.key \in Keys(st)), "find"),
         Chk(e.found => e.out = AtKey(st, e.key) /\ e.at = AtKey(st, e.key), "value of a key")>>)
    [] e.op = "ends" -> FirstOf(<<
         Chk(e.first_group = st[1], "first group"),
         Chk(e.first_value = st[1][2], "first value"),
         Chk(e.last_value = st[Len(st)][2], "last value")>>)
    [] e.op = "extremes" -> LET vals == RangeOf(ValList(st)) IN FirstOf(<<
         Chk(e.min \in RangeOf(st) /\ \A v \in vals : e.min[2] <= v, "minimum group"),
         Chk(e.max \in RangeOf(st) /\ \A v \in vals : e.max[2] >= v, "maximum group"),
         Chk(e.min_value = e.min[2] /\ e.max_value = e.max[2], "minimum and maximum value"),
         Chk(e.min_key \in Keys(st) /\ AtKey(st, e.min_key) = e.min[2], "minimum key"),
         Chk(e.max_key \in Keys(st) /\ AtKey(st, e.max_key) = e.max[2], "maximum key")>>)
    [] e.op = "bools" -> FirstOf(<<
         Chk(e.all = (\A v \in RangeOf(ValList(st)) : v = 1), "all"),
         Chk(e.any = (\E v \in RangeOf(ValList(st)) : v = 1), "any")>>)
    [] e.op = "totals" -> FirstOf(<<
         Chk(REq(e.sum, SumOf(ValList(st))), "sum"),
         Chk(Len(st) = 0 \/ RNear(e.mean, RDiv(SumOf(ValList(st)), Len(st)), "0", RMul("1e-14", RSumOf([n \in 1..Len(st) |-> RAbs(ValList(st)[n])]))), "mean")>>)
    [] e.op = "mean_of" -> Chk(RNear(e.out, RDiv(RSumOf(e.vals), Len(e.vals)), 0, RMul("1e-12", RSumOf([n \in 1..Len(e.vals) |-> RAbs(e.vals[n])]))), "mean of values of type " \o e.type)
    [] e.op = "combine" -> Chk(e.out = IF e.scalar THEN ValList(st) ELSE Flatten(ValList(st)), "combined groups")
    [] e.op = "filter" -> FirstOf(<<
         Chk(SameBag(ArgsOf(e.calls), Given(st, e.arity)), "filter asks once per group"),
         Chk(e.out = FilterBy(st, e), "groups kept by filter"),
         Chk(e.source = st, "filter changed its argument")>>)
    [] e.op = "apply" -> FirstOf(<<
         Chk(SameBag(ArgsOf(e.calls), Given(st, e.arity)), "apply calls once per group (" \o e.how \o ")"),
         Chk(e.void \/ e.out = ApplyBy(st, e), "results of apply (" \o e.how \o ")"),
         Chk(e.source = st, "apply changed its argument")>>)
=============================================================================
