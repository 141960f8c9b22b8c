-------------------------- MODULE MC_RandomSelection --------------------------
(***************************************************************************)
(* Selecting by drawing again what was drawn before, or (when more than    *)
(* half is wanted) by selecting what to leave out.  Whatever the draws,    *)
(* the result is a selection; together the behaviours reach every one.     *)
(***************************************************************************)
EXTENDS RandomSelection, Json, IOUtils, TLC
CONSTANTS MaxChoices, MaxDraws
Requests == {[n |-> n, low |-> low, high |-> low + c - 1] : n \in 0 .. MaxChoices + 1, low \in {0, 1, 3}, c \in 1 .. MaxChoices}
Inputs == {[kind |-> "positions", n |-> q.n, low |-> q.low, high |-> q.high, xs |-> <<>>] : q \in Requests} \cup
          {[kind |-> "elements", n |-> n, low |-> 0, high |-> 0, xs |-> xs] : n \in 0 .. 4, xs \in UNION {[1..k -> 1..3] : k \in 0..4}}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))
VARIABLES q, taken, draws, done, result
vars == <<q, taken, draws, done, result>>
Among(r) == r.low .. r.high
Init == q \in {r \in Requests : r.n <= r.high - r.low + 1} /\ taken = {} /\ draws = 0 /\ done = FALSE /\ result = {}
Complementing(r) == r.n > (r.high - r.low + 1) \div 2 + 1
Wanted(r) == IF Complementing(r) THEN r.high - r.low + 1 - r.n ELSE r.n
Draw == /\ ~done /\ Cardinality(taken) < Wanted(q) /\ draws < MaxDraws
        /\ \E x \in Among(q) : taken' = taken \cup {x}
        /\ draws' = draws + 1 /\ UNCHANGED <<q, done, result>>
Finish == /\ ~done /\ done' = TRUE /\ Cardinality(taken) = Wanted(q)
          /\ result' = (IF Complementing(q) THEN Among(q) \ taken ELSE taken)
          /\ UNCHANGED <<q, taken, draws>>
Next == Draw \/ Finish
Selected == done => result \subseteq Among(q) /\ Cardinality(result) = q.n
\* every selection is the result of some draws (the draws that take just it)
Reached(r) == {IF Complementing(r) THEN Among(r) \ t ELSE t : t \in {s \in SUBSET Among(r) : Cardinality(s) = Wanted(r)}}
ASSUME \A r \in {x \in Requests : x.n <= x.high - x.low + 1} :
         /\ Reached(r) = {s \in SUBSET Among(r) : Cardinality(s) = r.n}
         /\ Cardinality(Reached(r)) = Choose(r.high - r.low + 1, r.n)
ASSUME LET a == << <<"4", "2">>, <<"2", "5">> >> IN Factor(a) = << <<"2">>, <<"1", "2">> >>
=============================================================================
