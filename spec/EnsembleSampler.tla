--------------------------- MODULE EnsembleSampler ---------------------------
(***************************************************************************)
(* C23.  An ensemble of walkers, each a position p with the log density lp *)
(* of that position.  In an iteration every walker is moved once: relative *)
(* to a walker v of another split of the ensemble it proposes              *)
(*   y = v + z (x - v),   1/a <= z <= a,  sqrt(z) uniform,                 *)
(* and accepts y with probability min(1, z^(d-1) pi(y) / pi(x)).  Random   *)
(* choices are not visible: any choice that explains what was evaluated is *)
(* allowed, and what can only be judged together (how often proposals were *)
(* accepted, how z and v were distributed) is collected in tally.          *)
(***************************************************************************)
EXTENDS Real, LinAlg, Verdicts, Sequences, Naturals, FiniteSets, SequencesExt

NoTally == [n |-> 0, p |-> "0", pq |-> "0", accepted |-> 0, z |-> "0", zz |-> "0", first |-> 0, pf |-> "0", pfq |-> "0"]
Start == [ens |-> <<>>, iteration |-> 0, splits |-> 2, a |-> "2", tally |-> NoTally]

FiniteVec(p) == \A i \in 1..Len(p) : RIsFinite(p[i])
Usable(w) == RIsFinite(w.lp) /\ FiniteVec(w.p)
Walkers(ens) == [i \in 1..Len(ens) |-> [p |-> ens[i].p, lp |-> ens[i].lp]]

\* ---------------------------------------------------------- initial ensemble
\* unusable walkers are replaced by points between two of the others
Between(p, a, b) == \A i \in 1..Len(p) : RLeq(RMin(a[i], b[i]), RAdd(p[i], "1e-9")) /\ RLeq(p[i], RAdd(RMax(a[i], b[i]), "1e-9"))
RECURSIVE Fill(_, _, _)
Fill(have, evals, out) == \* "" or what is wrong; walks through the points tried
  IF evals = <<>> THEN (IF have = out THEN "" ELSE "initial ensemble is not the usable walkers and the points found for the others")
  ELSE LET w == Head(evals) IN
       IF ~\E i, k \in 1..Len(have) : i # k /\ Between(w.p, have[i].p, have[k].p) THEN "a replacement is not between two walkers"
       ELSE Fill(IF RIsFinite(w.lp) THEN Append(have, w) ELSE have, Tail(evals), out)
StartVerdict(e) ==
  LET usable == SelectSeq(Walkers(e.given), Usable) IN
  IF e.stopped THEN Chk(Len(usable) <= 2, "sampling did not start from enough usable walkers")
  ELSE FirstOf(<<Chk(Len(usable) >= 2, "sampling started without usable walkers"),
                 Chk(Len(e.ens) = Len(e.given), "the number of walkers changed"),
                 Chk(\A i \in 1..Len(e.ens) : Usable(e.ens[i]), "an initial walker is not usable"),
                 Fill(usable, e.evals, Walkers(e.ens))>>)

\* --------------------------------------------------------------------- moves
SplitOf(st, k) == (k - 1) % st.splits
RECURSIVE OrderFrom(_, _, _)
OrderFrom(st, n, s) == IF s = st.splits THEN <<>> ELSE SelectSeq([i \in 1..n |-> i], LAMBDA k : SplitOf(st, k) = s) \o OrderFrom(st, n, s + 1)
Order(st) == OrderFrom(st, Len(st.ens), 0)   \* the order in which walkers usually move
Deltas(x, v) == [i \in 1..Len(x) |-> IF REq(x[i], v[i]) THEN "1e-6" ELSE RSub(x[i], v[i])] \* never stay in a subspace
Widest(d) == CHOOSE i \in 1..Len(d) : \A k \in 1..Len(d) : RLeq(RAbs(d[k]), RAbs(d[i]))
Biggest(v) == FoldLeft(LAMBDA m, x : RMax(m, RAbs(x)), "0", v)
\* the stretches z with y = v + z (x - v): at most one
Stretches(st, y, x, v) ==
  LET d == Deltas(x, v) w == Widest(d) z == RDiv(RSub(y[w], v[w]), d[w])
      slack == RMul("1e-12", RAdd("1", RAdd(Biggest(y), RAdd(Biggest(v), Biggest(x)))))
      loose == RMin("0.01", RDiv(slack, RAbs(d[w]))) IN
  IF RLeq(RSub(RDiv("1", st.a), loose), z) /\ RLeq(z, RAdd(st.a, loose))
     /\ \A i \in 1..Len(y) : RLeq(RAbs(RSub(y[i], RAdd(v[i], RMul(z, d[i])))), slack) THEN {z} ELSE {}
Explanations(st, cur, y, k, from) == UNION {{[k |-> k, v |-> j, z |-> z] : z \in Stretches(st, y, cur[k].p, cur[j].p)} : j \in from}
Others(st, k) == {j \in 1..Len(st.ens) : SplitOf(st, j) # SplitOf(st, k)}
LogRatio(x, w, z) == RAdd(RMul(Len(w.p) - 1, RLog(z)), RSub(w.lp, x.lp))
Slack(w, x) == RMul("1e-10", RAdd("1", RAdd(RAbs(w.lp), RAbs(x.lp))))
\* "must", "may" or "never"
Acceptable(x, w, z) ==
  IF ~RIsFinite(w.lp) THEN "never"
  ELSE LET r == LogRatio(x, w, z) s == Slack(w, x) IN
       IF RLt(s, r) THEN "must" ELSE IF RLt(r, RSub("-45", s)) THEN "never" ELSE "may"
Consistent(x, w, z, accepted) == Acceptable(x, w, z) # (IF accepted THEN "never" ELSE "must")
Chance(x, w, z) == IF ~RIsFinite(w.lp) THEN "0" ELSE LET r == LogRatio(x, w, z) IN IF RLeq("0", r) THEN "1" ELSE RExp(r)
Counted(t, st, x, w, ex, accepted) ==
  LET p == Chance(x, w, ex.z) c == Cardinality(Others(st, ex.k)) f == RDiv(1, c)
      min == CHOOSE j \in Others(st, ex.k) : \A i \in Others(st, ex.k) : j <= i
      s == RSub(RSqrt(ex.z), RDiv(RAdd(RSqrt(st.a), RSqrt(RDiv("1", st.a))), 2)) IN
  [n |-> t.n + 1, p |-> RAdd(t.p, p), pq |-> RAdd(t.pq, RMul(p, RSub("1", p))), accepted |-> t.accepted + (IF accepted THEN 1 ELSE 0),
   z |-> RAdd(t.z, s), zz |-> RAdd(t.zz, RSq(s)), first |-> t.first + (IF ex.v = min THEN 1 ELSE 0),
   pf |-> RAdd(t.pf, f), pfq |-> RAdd(t.pfq, RMul(f, RSub("1", f)))]
\* in one dimension any other walker explains a proposal, and the stretch does not enter the rule
CountedAcceptance(t, x, w, accepted) ==
  LET p == Chance(x, w, "1") IN [t EXCEPT !.p = RAdd(@, p), !.pq = RAdd(@, RMul(p, RSub("1", p))), !.accepted = @ + (IF accepted THEN 1 ELSE 0)]
\* one proposal after another; m = [cur, moved, tally, bad]
MoveOne(st, e, m, n) ==
  IF m.bad # "" THEN m
  ELSE
  LET w == e.evals[n] k0 == Order(st)[n]
      usual == IF k0 \in m.moved THEN {} ELSE Explanations(st, m.cur, w.p, k0, Others(st, k0))
      any == IF usual # {} THEN usual
             ELSE UNION {Explanations(st, m.cur, w.p, k, Others(st, k)) : k \in (1..Len(m.cur)) \ m.moved}
      fits(ex) == Consistent(m.cur[ex.k], w, ex.z, e.ens[ex.k].accepted) IN
  IF any = {} THEN [m EXCEPT !.bad = "a proposal is not a stretch of a walker relative to one of another split"]
  ELSE IF ~\E ex \in any : fits(ex) THEN [m EXCEPT !.bad = "a proposal was accepted or rejected against the Metropolis rule"]
  ELSE LET ex == CHOOSE c \in any : fits(c) accepted == e.ens[ex.k].accepted IN
       [cur |-> IF accepted THEN [m.cur EXCEPT ![ex.k] = [p |-> w.p, lp |-> w.lp]] ELSE m.cur,
        moved |-> m.moved \cup {ex.k},
        tally |-> IF Len(w.p) > 1 /\ Cardinality(any) = 1 THEN Counted(m.tally, st, m.cur[ex.k], w, ex, accepted)
                  ELSE IF Len(w.p) = 1 /\ usual # {} THEN CountedAcceptance(m.tally, m.cur[ex.k], w, accepted) ELSE m.tally,
        bad |-> ""]
Moved(st, e) == FoldLeft(LAMBDA m, n : MoveOne(st, e, m, n), [cur |-> st.ens, moved |-> {}, tally |-> st.tally, bad |-> ""], [n \in 1..Len(e.evals) |-> n])
MoveVerdict(st, e) ==
  IF e.iteration # st.iteration + 1 THEN "an iteration was skipped or repeated"
  ELSE IF Len(e.evals) # Len(st.ens) \/ Len(e.ens) # Len(st.ens) THEN "not every walker proposed once"
  ELSE LET m == Moved(st, e) IN
       IF m.bad # "" THEN m.bad
       ELSE FirstOf(<<Chk(Walkers(e.ens) = m.cur, "a walker is neither where it was nor at its accepted proposal with its log density"),
                      Chk(\A i \in 1..Len(e.ens) : RIsFinite(e.ens[i].lp), "a walker has no finite log density")>>)
Within(got, want, variance) == RLeq(RSq(RSub(got, want)), RAdd("4", RMul("25", variance)))
TallyVerdict(t, a) ==
  LET w == RSub(RSqrt(a), RSqrt(RDiv("1", a))) var == RDiv(RSq(w), 12) IN
  FirstOf(<<Chk(Within(t.accepted, t.p, t.pq), "proposals are accepted more or less often than the Metropolis rule says"),
            Chk(RLeq(RSq(t.z), RMul("25", RMul(t.n, var))), "the stretch is not distributed as it should be (mean)"),
            Chk(RLeq(RSq(RSub(t.zz, RMul(t.n, var))), RMul("25", RMul(t.n, RDiv(RSq(RSq(w)), 180)))), "the stretch is not distributed as it should be (spread)"),
            Chk(Within(t.first, t.pf, t.pfq), "walkers of the other split are not equally likely")>>)

\* --------------------------------------------------------------------- models
\* sampling parameters of a model: x.lp is the model's own log likelihood at p (computed apart)
Inside(p, lo, hi) == \A i \in 1..Len(p) : RLeq(lo[i], p[i]) /\ RLeq(p[i], hi[i])
ModelVerdict(e) ==
  LET size == IF e.walkers > 2 * e.params + 1 THEN e.walkers ELSE 2 * e.params + 1 IN
  FirstOf(<<Chk(Len(e.history) = e.iterations + 1, "number of iterations"),
            Chk(\A i \in 1..Len(e.history) : Len(e.history[i]) = size, "number of walkers"),
            Chk(VecNear(e.history[1][1].p, e.initial, "0", "0"), "the first walker does not start at the model's parameters"),
            Chk(\A i \in 1..Len(e.history), k \in 1..size : Inside(e.history[i][k].p, e.lower, e.upper), "a walker left the bounds of the parameters"),
            Chk(\A i \in 1..Len(e.history), k \in 1..size : REq(e.history[i][k].lp, e.history[i][k].want), "log density of a walker is not the model's"),
            Chk(\A i \in 2..Len(e.history), k \in 1..size : e.history[i][k].accepted \/ e.history[i][k].p = e.history[i - 1][k].p, "a walker that rejected moved")>>)
JitterVerdict(e) ==
  LET size == IF e.walkers > 2 * e.params + 1 THEN e.walkers ELSE 2 * e.params + 1 IN
  FirstOf(<<Chk(Len(e.out) = size, "number of initial walkers"),
            Chk(VecNear(e.out[1], e.initial, "0", "0"), "the first walker is not at the model's parameters"),
            Chk(\A k \in 1..size : Len(e.out[k]) = Len(e.initial) /\ Inside(e.out[k], e.lower, e.upper), "an initial walker is outside of the bounds"),
            Chk(\A k \in 2..size, i \in 1..Len(e.initial) :
                  RLeq(RAbs(RSub(e.out[k][i], e.initial[i])), RAdd(e.largest, "1e-9")), "an initial walker is further away than the jitter")>>)

Verdict(st, e) ==
  CASE e.op = "start" -> StartVerdict(e)
    [] e.op = "move" -> MoveVerdict(st, e)
    [] e.op = "tally" -> TallyVerdict(st.tally, st.a)
    [] e.op = "return" -> Chk(e.iterations = st.iteration /\ e.same, "what is returned is not what callbacks saw")
    [] e.op = "repeat" -> Chk(e.same, "the same random generator gave different samples")
    [] e.op = "model" -> ModelVerdict(e)
    [] e.op = "jitter" -> JitterVerdict(e)
    [] OTHER -> "unknown event"
After(st, e) ==
  CASE e.op = "start" -> [st EXCEPT !.ens = Walkers(e.ens), !.iteration = 0, !.splits = e.splits, !.a = e.a]
    [] e.op = "move" -> [st EXCEPT !.ens = Walkers(e.ens), !.iteration = @ + 1, !.tally = Moved(st, e).tally]
    [] OTHER -> st
=============================================================================
