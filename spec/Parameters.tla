----------------------------- MODULE Parameters -----------------------------
(***************************************************************************)
(* C14.  State: two parameter holders (handles 1 and 2), each a sequence   *)
(* of [n: name, v: value, p: prior] in ascending order of names.  Every    *)
(* operation of the public interface is a transition; what the operation   *)
(* may do to BOTH holders is determined by Apply, so that writing a name   *)
(* changes nothing else.  A call the interface rejects stops the program   *)
(* (Rejects) instead of having an effect.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts, Real

Eps == "0x1p-52"
Log2 == RLog(2)
Log2Pi == RLog(RMul(2, RPi))

(* ------------------------------ priors --------------------------------- *)
Lower(p) == CASE p.t = "positive" -> Eps
              [] p.t \in {"non_negative", "positive_gaussian"} -> "0"
              [] p.t \in {"uniform", "log_scale_uniform"} -> p.a
              [] OTHER -> "-inf"
Upper(p) == CASE p.t \in {"uniform", "log_scale_uniform"} -> p.b
              [] p.t = "positive_gaussian" -> RMul(10, p.b)
              [] OTHER -> "inf"
Fixed(p) == p.t = "fixed"
LogScale(p) == p.t = "log_scale_uniform"
NormalLog(x, mu, sd) == RNeg(RMul("0.5", RAdd(RAdd(Log2Pi, RMul(2, RLog(sd))), RSq(RDiv(RSub(x, mu), sd)))))
LogPdf(p, x) ==
  CASE p.t \in {"uninformative", "fixed"} -> "0"
    [] p.t = "positive" -> IF RLt("0", x) THEN "0" ELSE "-inf"
    [] p.t = "non_negative" -> IF RLeq("0", x) THEN "0" ELSE "-inf"
    [] p.t \in {"uniform", "log_scale_uniform"} ->
         IF RLeq(p.a, x) /\ RLeq(x, p.b) THEN RNeg(RLog(RSub(p.b, p.a))) ELSE "-inf"
    [] p.t = "gaussian" -> NormalLog(x, p.a, p.b)
    [] p.t = "positive_gaussian" -> IF RLt(x, "0") THEN "-inf" ELSE RAdd(NormalLog(x, p.a, p.b), Log2)
    [] p.t = "log_normal" -> IF RLeq(x, "0") THEN "-inf" ELSE RSub(NormalLog(RLog(x), p.a, p.b), RLog(x))
SamePrior(p, q) == p.t = q.t /\ RSame(p.a, q.a) /\ RSame(p.b, q.b)

(* ------------------------------ stores --------------------------------- *)
Names(s) == {s[m].n : m \in DOMAIN s}
At(s, n) == s[CHOOSE m \in DOMAIN s : s[m].n = n]
Inside(r) == RLeq(Lower(r.p), r.v) /\ RLeq(r.v, Upper(r.p))     \* nan is inside nothing
Valid(s) == \A m \in DOMAIN s : Inside(s[m])
Put(s, n, r) == [m \in DOMAIN s |-> IF s[m].n = n THEN r ELSE s[m]]
PutValue(s, n, v) == [m \in DOMAIN s |-> IF s[m].n = n THEN [s[m] EXCEPT !.v = v] ELSE s[m]]
PutPrior(s, n, p) == [m \in DOMAIN s |-> IF s[m].n = n THEN [s[m] EXCEPT !.p = p] ELSE s[m]]
\* bulk updates: list of [n, v, p] (or [n, v]) with distinct names
PutAll(s, l) == [m \in DOMAIN s |-> IF s[m].n \in Names(l) THEN At(l, s[m].n) ELSE s[m]]
PutValues(s, l) == [m \in DOMAIN s |-> IF s[m].n \in Names(l) THEN [s[m] EXCEPT !.v = At(l, s[m].n).v] ELSE s[m]]
Free(s) == SelectSeq(s, LAMBDA r : ~Fixed(r.p))
Packed(r) == IF LogScale(r.p) THEN RLog(r.v) ELSE r.v
Clamp(r, x) == IF RLt(x, Lower(r.p)) THEN Lower(r.p) ELSE IF RLt(Upper(r.p), x) THEN Upper(r.p) ELSE x
\* position of the m-th parameter among those that are not fixed
Rank(s, m) == Cardinality({q \in 1..m : ~Fixed(s[q].p)})
Unpacked(s, x, force) ==
  [m \in DOMAIN s |->
    IF Fixed(s[m].p) THEN s[m]
    ELSE LET v == IF LogScale(s[m].p) THEN RExp(x[Rank(s, m)]) ELSE x[Rank(s, m)]
         IN  [s[m] EXCEPT !.v = IF force THEN Clamp(s[m], v) ELSE v]]
PriorLog(s) == LET f[m \in 0..Len(s)] == IF m = 0 THEN "0" ELSE RAdd(f[m - 1], LogPdf(s[m].p, s[m].v)) IN f[Len(s)]

(* ---------------------------- transitions ------------------------------ *)
Ops == {"set_param", "set_value", "set_prior", "set_params", "set_values", "set_param_if_exists",
        "set_value_if_exists", "set_prior_if_exists", "set_params_if_exists", "set_values_if_exists", "copy", "set_tunable"}
Rejects(st, e) ==
  LET s == st[e.h] IN
  CASE e.op \in {"set_param", "set_value", "set_prior"} -> e.n \notin Names(s)
    [] e.op \in {"set_params", "set_values"} -> ~(Names(e.l) \subseteq Names(s))
    [] e.op = "set_tunable" -> Len(e.x) # Len(Free(s))
    [] e.op = "tunable" -> \E m \in DOMAIN Free(s) : RLt(Free(s)[m].v, Lower(Free(s)[m].p)) \/ RLt(Upper(Free(s)[m].p), Free(s)[m].v)
    [] OTHER -> FALSE
Effect(st, e) ==
  LET s == st[e.h] IN
  CASE e.op = "copy" -> st[e.from]
    [] e.op \in {"set_param", "set_param_if_exists"} -> Put(s, e.n, [n |-> e.n, v |-> e.v, p |-> e.p])
    [] e.op \in {"set_value", "set_value_if_exists"} -> PutValue(s, e.n, e.v)
    [] e.op \in {"set_prior", "set_prior_if_exists"} -> PutPrior(s, e.n, e.p)
    [] e.op \in {"set_params", "set_params_if_exists"} -> PutAll(s, e.l)
    [] e.op \in {"set_values", "set_values_if_exists"} -> PutValues(s, e.l)
    [] e.op = "set_tunable" -> Unpacked(s, e.x, e.force)
    [] OTHER -> s
Apply(st, e) == [st EXCEPT ![e.h] = Effect(st, e)]
Returns(st, e) ==
  LET s == st[e.h] IN
  IF e.op \in {"set_param_if_exists", "set_value_if_exists", "set_prior_if_exists"} THEN e.n \in Names(s)
  ELSE e.l # <<>> /\ Names(e.l) \subseteq Names(s)

(* ----------------------------- verdicts -------------------------------- *)
Exactly(a, b) == Len(a) = Len(b) /\ \A m \in DOMAIN a : a[m].n = b[m].n /\ RSame(a[m].v, b[m].v) /\ SamePrior(a[m].p, b[m].p)
About(a, b) == Len(a) = Len(b) /\ \A m \in DOMAIN a :
  a[m].n = b[m].n /\ (RSame(a[m].v, b[m].v) \/ (LogScale(b[m].p) /\ RNear(a[m].v, b[m].v, "1e-14", "0"))) /\ SamePrior(a[m].p, b[m].p)
NearR(a, b) == RSame(a, b) \/ RNear(a, b, "1e-13", "1e-13")
Start == <<<<>>, <<>>>>
After(st, e) == IF "all" \in DOMAIN e THEN e.all ELSE st

Changed(st, e) ==
  LET w == Apply(st, e)
      same == IF e.op = "set_tunable" THEN About(e.all[e.h], w[e.h]) ELSE Exactly(e.all[e.h], w[e.h])
  IN FirstOf(<<Chk(same, "effect of " \o e.op \o " (" \o e.kind \o ")"),
               Chk(Exactly(e.all[3 - e.h], w[3 - e.h]), e.op \o " changed another object (" \o e.kind \o ")"),
               Chk("ret" \notin DOMAIN e \/ e.ret = Returns(st, e), "result of " \o e.op \o " (" \o e.kind \o ")")>>)
Verdict(st, e) ==
  CASE e.op = "start" -> Chk(\A h \in 1..2 : Exactly(e.all[h], e.given[h]), "initial parameters (" \o e.kind \o ")")
    [] e.op \in Ops -> Chk(~Rejects(st, e), e.op \o " was not rejected") \o IF Rejects(st, e) THEN "" ELSE Changed(st, e)
    [] e.op = "attempt" -> Chk(e.stopped = Rejects(st, e.call), "rejection of " \o e.call.op \o " (" \o e.kind \o ")")
    [] e.op = "read" -> Chk(e.n \in Names(st[e.h]) /\ RSame(e.out, At(st[e.h], e.n).v), "value read back")
    [] e.op = "tunable" ->
         LET f == Free(st[e.h]) IN
         FirstOf(<<Chk(e.names = [m \in DOMAIN f |-> f[m].n], "names of the tunable parameters"),
                   Chk(Len(e.values) = Len(f) /\ \A m \in DOMAIN f : NearR(e.values[m], Packed(f[m])), "packed values"),
                   Chk(Len(e.lower) = Len(f) /\ \A m \in DOMAIN f : NearR(e.lower[m], IF LogScale(f[m].p) THEN RLog(Lower(f[m].p)) ELSE Lower(f[m].p)), "packed lower bounds"),
                   Chk(Len(e.upper) = Len(f) /\ \A m \in DOMAIN f : NearR(e.upper[m], IF LogScale(f[m].p) THEN RLog(Upper(f[m].p)) ELSE Upper(f[m].p)), "packed upper bounds")>>)
    [] e.op = "valid" -> Chk(e.out = Valid(st[e.h]), "validity of the parameters")
    [] e.op = "log_likelihood" -> Chk(NearR(e.out, PriorLog(st[e.h])), "sum of the log densities of the priors")
    [] e.op = "equal" -> Chk(e.out = (e.a.n = e.b.n /\ REq(e.a.v, e.b.v) /\ SamePrior(e.a.p, e.b.p)) /\ e.differ = ~e.out, "equality of parameters")
    [] e.op = "pretty" -> Chk(Len(e.out) = Len(st[e.h]) /\ \A m \in DOMAIN e.out :
                                e.out[m].n = st[e.h][m].n /\ (RSame(e.out[m].v, st[e.h][m].v) \/ RNear(e.out[m].v, st[e.h][m].v, "1e-12", "0")), "printed parameters")
    [] e.op = "prior" ->
         FirstOf(<<Chk(NearR(e.log_pdf, LogPdf(e.p, e.x)), "log density of prior " \o e.p.t),
                   Chk(RSame(e.lower, Lower(e.p)) /\ (RNear(e.upper, Upper(e.p), "1e-15", "0") \/ RSame(e.upper, Upper(e.p))), "bounds of prior " \o e.p.t),
                   Chk(e.fixed = Fixed(e.p) /\ e.log_scale = LogScale(e.p), "kind of prior " \o e.p.t),
                   Chk(e.within = Inside([n |-> "", v |-> e.x, p |-> e.p]), "bounds test of prior " \o e.p.t)>>)
    [] OTHER -> "unknown event"
=============================================================================
