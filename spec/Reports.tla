------------------------------- MODULE Reports -------------------------------
(***************************************************************************)
(* C31.  Text written for people.  A tuner is a machine which evaluates an *)
(* objective and writes a log; a reader who sees nothing but the log must  *)
(* be able to tell every evaluation, in order, the gradients, the best so  *)
(* far and the result.  Listings of parameters, eigen directions, traces   *)
(* of calls and graphs are read back and compared with what they list.     *)
(* Printed numbers have the digits the stream shows, no more.              *)
(***************************************************************************)
EXTENDS Real, LinAlg, Verdicts, Integers, Sequences, SequencesExt, TLC
Ps == INSTANCE Parameters

\* to p significant digits (rel), and 0 or not finite exactly
Shown(printed, value, rel) == RSame(printed, value) \/ (RIsFinite(value) /\ RNear(printed, value, rel, "1e-300"))
Six(printed, value) == Shown(printed, value, "1e-5")
Twelve(printed, value) == Shown(printed, value, "1e-12")
Same(Digits(_, _), listed, ps) == Len(listed) = Len(ps) /\ \A m \in 1..Len(ps) : listed[m][1] = ps[m][1] /\ Digits(listed[m][2], ps[m][2])
Values(s) == [m \in 1..Len(s) |-> <<s[m].n, s[m].v>>]
PriorShown(p, q) == p.t = q.t /\ Six(p.a, q.a) /\ Six(p.b, q.b)

\* --------------------------------------------------------------- the machine
\* asked: what the objective was asked and answered, [p: values, out]
Start == [params |-> <<>>, flavour |-> "none", asked |-> <<>>, n |-> 0]
\* the log of a tuner is a sequence of blocks; a block with gradients accounts for
\* one more evaluation per tunable parameter.  Where the b-th block's evaluation is:
Ends(blocks) == TLCEval([b \in 0..Len(blocks) |->
                  FoldLeft(LAMBDA s, k : s + 1 + Len(k.gradient), 0, SubSeq(blocks, 1, b))])
Metric(out) == IF RIsNan(out) THEN "inf" ELSE out
TunablePositions(s) == SelectSeq([m \in 1..Len(s) |-> m], LAMBDA m : ~Ps!Fixed(s[m].p))
\* finite differences, in the order of the tunable parameters (none of them on a log scale)
GradientShown(st, g, at) ==
  LET t == TunablePositions(st.params) here == st.asked[at] IN
  /\ Len(g) = Len(t)
  /\ \A m \in 1..Len(t) :
       LET k == t[m] there == st.asked[at + m] h == RSub(there.p[k][2], here.p[k][2]) IN
       /\ g[m][1] = st.params[k].n
       /\ \/ RNear(g[m][2], RDiv(RSub(there.out, here.out), h), "1e-5", "1e-300")
          \/ g[m][2] = "0x0p+0" /\ (RLeq(Ps!Upper(st.params[k].p), here.p[k][2]) \/ RLeq(here.p[k][2], Ps!Lower(st.params[k].p)))
CodeText(n) == CASE n = "-1" -> "generic failure" [] n = "-2" -> "invalid_arguments" [] n = "-3" -> "out of memory"
                 [] n = "-4" -> "roundoff limited" [] n = "-5" -> "forced stop" [] n = "1" -> "generic success"
                 [] n = "2" -> "stop value reached" [] n = "3" -> "ftol reached" [] n = "4" -> "xtol reached"
                 [] n = "5" -> "maxeval reached" [] n = "6" -> "maxtime reached" [] OTHER -> "none"
TunerLog(st, e) ==
  LET ends == Ends(e.blocks) n == Len(e.blocks)
      at(b) == ends[b - 1] + 1 IN
  IF ends[n] # Len(st.asked) THEN "evaluations are missing in the log or were made up (" \o st.flavour \o ")" ELSE
  FirstOf(<<Chk(\A b \in 1..n : LET a == st.asked[at(b)] IN
                  /\ IF st.flavour = "vector" THEN Same(Six, e.blocks[b].values, a.p) ELSE Same(Twelve, e.blocks[b].values, a.p)
                  /\ Six(e.blocks[b].objective, Metric(a.out)), "an evaluation in the log (" \o st.flavour \o ")"),
            Chk(\A b \in 1..n : e.blocks[b].gradient = <<>> \/ GradientShown(st, e.blocks[b].gradient, at(b)), "a gradient in the log"),
            Chk(Same(Twelve, e.tuned, e.result), "tuned parameters in the log"),
            Chk(\E b \in 1..n : LET a == st.asked[at(b)] IN
                  Six(e.minimum, Metric(a.out)) /\ \A k \in 1..Len(a.p) : RNear(a.p[k][2], e.result[k][2], "1e-12", "1e-300"), "minimum in the log"),
            Chk(e.code = CodeText(e.number), "termination code in the log")>>)

\* the greedy tuner: attempts, each a batch of evaluations for one parameter
At1(p, name) == (CHOOSE k \in 1..Len(p) : p[k][1] = name)
GreedyLog(st, e) ==
  LET ends == TLCEval([b \in 0..Len(e.attempts) |-> FoldLeft(LAMBDA s, k : s + Len(k.evaluations), 0, SubSeq(e.attempts, 1, b))])
      n == Len(e.attempts) t == TunablePositions(st.params)
      outs == TLCEval([i \in 1..Len(st.asked) |-> st.asked[i].out])
      \* position of the best of the first i evaluations, 0 if none is a number below infinity
      best == TLCEval(FoldLeft(LAMBDA s, i : Append(s, IF RLt(outs[i], IF s[i] = 0 THEN "inf" ELSE outs[s[i]]) THEN i ELSE s[i]), <<0>>, [i \in 1..Len(outs) |-> i]))
      bestAt(i) == best[i + 1]
      paramsAt(i) == IF bestAt(i) = 0 THEN Values(st.params) ELSE st.asked[bestAt(i)].p IN
  IF ends[n] # Len(st.asked) \/ \E b \in 1..n : Len(e.attempts[b].proposals) # Len(e.attempts[b].evaluations)
  THEN "evaluations are missing in the greedy log or were made up" ELSE
  FirstOf(<<Chk([k \in 1..Len(e.tuning) |-> e.tuning[k][1]] = [m \in 1..Len(t) |-> st.params[t[m]].n], "parameters announced by the greedy tuner"),
            Chk(Same(Twelve, e.initial, Values(st.params)), "initial parameters in the greedy log"),
            Chk(Len(t) = 0 \/ \A b \in 1..n : e.attempts[b].n = st.params[t[((b - 1) % Len(t)) + 1]].n, "turns in the greedy log"),
            Chk(\A b \in 1..n : \A i \in 1..Len(e.attempts[b].evaluations) :
                  LET a == st.asked[ends[b - 1] + i] v == e.attempts[b].evaluations[i]
                      x == IF \E k \in 1..Len(a.p) : a.p[k][1] = e.attempts[b].n THEN a.p[At1(a.p, e.attempts[b].n)][2] ELSE "nan" IN
                  v.n = e.attempts[b].n /\ Six(v.v, x) /\ Six(v.out, a.out) /\ Six(e.attempts[b].proposals[i], x), "an evaluation in the greedy log"),
            \* the first proposals of every parameter were announced (the very first attempt also asks for the start)
            Chk(n < Len(t) \/ \A m \in 1..Len(t) :
                  LET s == e.attempts[m].proposals q == e.tuning[m][2] IN
                  Len(s) = Len(q) + (IF m = 1 THEN 1 ELSE 0) /\ \A i \in 1..Len(q) : Six(s[i], q[i]), "announced proposals"),
            Chk(\A b \in 1..n : \A i \in 1..Len(e.attempts[b].evaluations) :
                  LET k == ends[b - 1] + i IN e.attempts[b].evaluations[i].best = (bestAt(k) = k), "best so far in the greedy log"),
            Chk(\A b \in 1..n : LET k == ends[b] IN
                  /\ Six(e.attempts[b].best_value, IF bestAt(k) = 0 THEN "inf" ELSE outs[bestAt(k)])
                  /\ Same(Twelve, e.attempts[b].best, paramsAt(k)), "best of an attempt in the greedy log")>>)

\* ------------------------------------------------------------ eigen directions
\* rows: one per direction, [value, coefs: sequence of <<coefficient, position>>]
Filled(row, n) == TLCEval([i \in 1..n |-> LET h == SelectSeq(row.coefs, LAMBDA c : c[2] = i) IN IF h = <<>> THEN "0" ELSE h[1][1]])
Largest(A) == FoldLeft(LAMBDA m, r : FoldLeft(LAMBDA a, x : IF RLt(a, RAbs(x)) THEN RAbs(x) ELSE a, m, r), "1", A)
Ordered(which, a, b) == LET slack == RMul("1e-5", RMax(RAbs(a), RAbs(b))) IN
  IF which = "small" THEN RLeq(a, RAdd(b, RAdd(slack, "1e-9"))) ELSE RLeq(RSub(b, RAdd(slack, "1e-9")), a)
Directions(e) ==
  LET n == Len(e.matrix) vs == TLCEval([k \in 1..Len(e.all) |-> Filled(e.all[k], n)])
      tol == RMul("1e-4", RMul(ToString(n), Largest(e.matrix)))
      first == IF n = 0 THEN 0 ELSE 1 IN
  IF Len(e.all) # n \/ Len(e.some) # e.count THEN "number of eigen directions" ELSE
  IF \E k \in 1..n : Len(e.all[k].coefs) # n THEN "coefficients of a direction are missing" ELSE
  FirstOf(<<Chk(\A k, l \in 1..n : RNear(Dot(vs[k], vs[l]), IF k = l THEN "1" ELSE "0", "0", "1e-4"), "eigen directions are not orthonormal"),
            Chk(\A k \in 1..n : VecNear(MatVec(e.matrix, vs[k]), VecScale(e.all[k].value, vs[k]), "0", tol), "an eigen value and its direction"),
            Chk(\A k \in 1..(n - 1) : Ordered(e.which, e.all[k].value, e.all[k + 1].value), "order of the eigen values (" \o e.which \o ")"),
            Chk(Six(e.min, e.all[IF e.which = "small" THEN 1 ELSE n].value) /\ Six(e.max, e.all[IF e.which = "small" THEN n ELSE 1].value), "extreme eigen values"),
            Chk(\A k \in 1..n : \A i \in 1..(Len(e.all[k].coefs) - 1) : RLeq(RSub(RAbs(e.all[k].coefs[i + 1][1]), "1e-5"), RAbs(e.all[k].coefs[i][1])), "largest coefficients first"),
            \* a shorter report is the beginning of the full one without the small coefficients
            Chk(\A k \in 1..e.count :
                  /\ e.some[k].value = e.all[k].value
                  /\ RangeOf(e.some[k].coefs) \subseteq RangeOf(e.all[k].coefs)
                  /\ \A c \in RangeOf(e.all[k].coefs) :
                       LET a == RAbs(c[1]) IN
                       /\ RLt(RMul(e.above, "1.00001"), a) => c \in RangeOf(e.some[k].coefs)
                       /\ RLt(a, RMul(e.above, "0.99999")) => c \notin RangeOf(e.some[k].coefs), "coefficients above the threshold"),
            Chk(e.flags_kept, "the format of the stream")>>)

After(st, e) ==
  CASE e.op = "tuning" -> [params |-> e.params, flavour |-> e.flavour, asked |-> <<>>, n |-> 0]
    [] e.op = "asked" -> [st EXCEPT !.asked = Append(@, [p |-> e.p, out |-> e.out])]
    [] OTHER -> st
Verdict(st, e) ==
  CASE e.op \in {"tuning", "asked"} -> ""
    [] e.op = "log" -> TunerLog(st, e)
    [] e.op = "greedy_log" -> GreedyLog(st, e)
    [] e.op = "listing" ->
         LET n == Len(e.store) IN
         FirstOf(<<Chk(Same(Twelve, e.values, Values(e.store)), "listed values"),
                   Chk(Len(e.priors) = n /\ \A m \in 1..n : e.priors[m].n = e.store[m].n /\ PriorShown(e.priors[m].p, e.store[m].p), "listed priors"),
                   Chk(Len(e.details) = n, "listed details"),
                   Chk(\A m \in 1..n : LET d == e.details[m] s == e.store[m] IN
                         /\ d.n = s.n /\ Six(d.v, s.v) /\ PriorShown(d.p, s.p)
                         /\ Six(d.lower, Ps!Lower(s.p)) /\ Six(d.upper, Ps!Upper(s.p)), "details of a parameter"),
                   Chk(\A m \in 1..n : e.details[m].valid = Ps!Inside(e.store[m]), "listed validity")>>)
    [] e.op = "eigen" -> Directions(e)
    [] e.op = "calls" -> Chk(e.lines = e.rows, "printed trace of calls")
    [] e.op = "graph" -> Chk(Len(e.lines) = Len(e.edges) /\ \A i \in 1..Len(e.edges) :
                               e.lines[i].a = e.edges[i].a /\ e.lines[i].b = e.edges[i].b /\ Six(e.lines[i].cost, e.edges[i].cost), "printed graph")
    [] e.op = "codes" -> Chk(\A i \in 1..Len(e.codes) : e.codes[i][2] = CodeText(e.codes[i][1]), "text of a termination code")
    [] e.op = "measurement" -> Chk(e.out = "Meas[" \o e.value \o "]", "printed measurement")
    [] OTHER -> "unknown event"
=============================================================================
