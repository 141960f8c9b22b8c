----------------------------- MODULE MC_Reports ------------------------------
(***************************************************************************)
(* A tuner evaluates and writes its log block by block; before it is read  *)
(* the log may be damaged once: a block lost, written twice, exchanged     *)
(* with the next, an objective or a gradient altered.  A faithful log is   *)
(* always accepted, a damaged one never (unless it reads the same).        *)
(* The same for the greedy tuner's best so far.  Emits listings.           *)
(***************************************************************************)
EXTENDS Reports, Json, IOUtils, FiniteSets
CONSTANTS MaxEvals, MaxList

Kinds == {"uninformative", "fixed", "positive", "non_negative", "uniform", "log_scale_uniform", "gaussian", "positive_gaussian", "log_normal"}
Places == {"inside", "low", "high", "below", "above", "nan"}
One == [t : Kinds, at : Places]
Few == {x \in One : x.at \in {"inside", "above"} /\ x.t \in {"fixed", "uniform", "log_scale_uniform"}}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq({[params |-> <<x>>] : x \in One} \cup {[params |-> <<x, y>>] : x \in One, y \in Few}
                                           \cup (IF MaxList > 2 THEN {[params |-> <<x, y, z>>] : x \in One, y, z \in Few} ELSE {})))

ASSUME /\ Six("1.23457", "0x1.3c0ca428c59fbp+0") /\ ~Six("1.2346", "0x1.3c0ca428c59fbp+0") /\ Six("inf", "inf") /\ ~Six("inf", "1") /\ ~Six("0", "1e-9")
       /\ CodeText("5") = "maxeval reached" /\ CodeText("-2") = "invalid_arguments"

\* ----------------------------------------------------------------- the tuner
Free(n) == [n |-> n, v |-> "0", p |-> [t |-> "uninformative", a |-> "0", b |-> "0"]]
Store == <<Free("a"), [n |-> "b", v |-> "1", p |-> [t |-> "fixed", a |-> "0", b |-> "0"]], Free("c")>>
Eval(x, y, out) == [p |-> << <<"a", x>>, <<"b", "1">>, <<"c", y>> >>, out |-> out]
Objective(x, y) == RAdd(RMul("2", x), RMul("3", y))
Points == {"0", "1", "2"}
VARIABLES st, blocks, damaged
vars == <<st, blocks, damaged>>
Init == st = [Start EXCEPT !.params = Store, !.flavour = "params"] /\ blocks = <<>> /\ damaged = FALSE
Block(x, y, g) == [values |-> << <<"a", x>>, <<"b", "1">>, <<"c", y>> >>, objective |-> Objective(x, y), gradient |-> g]
Ask(s, x, y) == After(s, [op |-> "asked"] @@ Eval(x, y, Objective(x, y)))
Count == Len(blocks)
Evaluate == \E x, y \in Points : st' = Ask(st, x, y) /\ blocks' = Append(blocks, Block(x, y, <<>>)) /\ UNCHANGED damaged
WithGradient == \E x, y \in Points :
  /\ st' = Ask(Ask(Ask(st, x, y), RAdd(x, "0.5"), y), x, RAdd(y, "0.5"))
  /\ blocks' = Append(blocks, Block(x, y, << <<"a", "2">>, <<"c", "3">> >>)) /\ UNCHANGED damaged
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Damage == /\ ~damaged /\ damaged' = TRUE /\ UNCHANGED st
          /\ \E i \in 1..Count : \/ blocks' = Drop(blocks, i)
                                 \/ blocks' = SubSeq(blocks, 1, i) \o SubSeq(blocks, i, Count)
                                 \/ i < Count /\ blocks[i] # blocks[i + 1] /\ blocks' = [blocks EXCEPT ![i] = blocks[i + 1], ![i + 1] = blocks[i]]
                                 \/ blocks' = [blocks EXCEPT ![i].objective = "100"]
                                 \/ blocks[i].gradient # <<>> /\ blocks' = [blocks EXCEPT ![i].gradient = <<@[2], @[1]>>]
                                 \/ blocks[i].gradient # <<>> /\ blocks' = [blocks EXCEPT ![i].gradient = <<>>]
                                 \/ blocks[i].gradient # <<>> /\ blocks' = [blocks EXCEPT ![i].gradient[2][2] = "2"]
Next == \/ ~damaged /\ Count < MaxEvals /\ (Evaluate \/ WithGradient)
        \/ Damage
End == LET b == blocks[Count] IN
       [op |-> "log", blocks |-> blocks, tuned |-> b.values, result |-> b.values, minimum |-> b.objective, number |-> "5", code |-> "maxeval reached"]
Judged == Count = 0 \/ (Verdict(st, End) = "") = ~damaged
WrongEnd == damaged \/ Count = 0 \/
  /\ Verdict(st, [End EXCEPT !.code = "ftol reached"]) # "" /\ Verdict(st, [End EXCEPT !.minimum = "77"]) # ""
  /\ Verdict(st, [End EXCEPT !.tuned[1][2] = "9"]) # ""
\* the same evaluations as a greedy tuner's: every attempt one evaluation of a, then of c, ...
Attempts ==
  LET n == Len(st.asked) out(i) == st.asked[i].out
      best(i) == CHOOSE k \in 1..i : (\A l \in 1..i : RLeq(out(k), out(l))) /\ (\A l \in 1..(k - 1) : RLt(out(k), out(l)))
  IN TLCEval([i \in 1..n |-> LET k == IF i % 2 = 1 THEN 1 ELSE 3 v == st.asked[i].p[k][2] b == best(i) IN
       [n |-> st.asked[i].p[k][1], proposals |-> <<v>>, evaluations |-> << [n |-> st.asked[i].p[k][1], v |-> v, out |-> out(i), best |-> b = i] >>,
        best_value |-> out(b), best |-> st.asked[b].p]])
Greedy(a) == [op |-> "greedy_log", attempts |-> a, initial |-> <<>>,
              tuning |-> << <<"a", <<>>>>, <<"c", IF Len(a) > 1 THEN a[2].proposals ELSE <<>>>> >>]
GreedyJudged == damaged \/ LET a == Attempts e == [Greedy(a) EXCEPT !.initial = Values(Store)] n == Len(a) IN
  /\ Verdict(st, e) = ""
  /\ \A i \in 1..n : /\ Verdict(st, [e EXCEPT !.attempts[i].evaluations[1].best = ~@]) # ""
                     /\ Verdict(st, [e EXCEPT !.attempts[i].best_value = "-50"]) # ""
                     /\ Verdict(st, [e EXCEPT !.attempts[i].n = "b"]) # ""
                     /\ Verdict(st, [e EXCEPT !.attempts = Drop(a, i)]) # ""
=============================================================================
