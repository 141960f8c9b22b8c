----------------------------- MODULE MC_Parallel -----------------------------
(***************************************************************************)
(* The design of the pooled helpers: the caller enqueues one task per      *)
(* element, W workers take them in order and run them, the caller waits    *)
(* for all and then collects the futures in order.  Model checked against  *)
(* the requirements of Parallel.tla under every interleaving and every set *)
(* of failing elements; the begin/end orders are the schedules replayed    *)
(* against the real helpers.                                               *)
(***************************************************************************)
EXTENDS Parallel, Json, IOUtils, SequencesExt
CONSTANTS MaxN, MaxW
\* all orders of begin/end events of n tasks on w workers
RECURSIVE Extend(_, _, _, _)
Extend(s, taken, n, w) == \* taken: <<set of begun tasks, set of ended tasks>>
  LET begun == taken[1] ended == taken[2]
      active == Cardinality(begun \ ended)
      \* workers take tasks in order; a taken task may begin before an earlier taken one
      can == {i \in 1..n : i \notin begun /\ Cardinality({k \in 1..n : k < i /\ k \notin begun}) + active < w}
  IN IF ended = 1..n THEN {s}
     ELSE UNION {Extend(Append(s, <<"B", i>>), <<begun \cup {i}, ended>>, n, w) : i \in can}
          \cup UNION {Extend(Append(s, <<"E", i>>), <<begun, ended \cup {i}>>, n, w) : i \in begun \ ended}
Scripts(n, w) == Extend(<<>>, <<{}, {}>>, n, w)
FailSets(n) == IF n <= 1 THEN {{}, {1} \cap 1..n} ELSE {{}, {1}, {n}, {2, n}, 1..n}
Runs == UNION {{[n |-> n, w |-> w, script |-> s, fails |-> SetToSortSeq(f, <)] : s \in Scripts(n, w), f \in FailSets(n)} :
               n \in 0..MaxN, w \in 2..MaxW}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Runs))

VARIABLES n, w, fails, queue, running, results, mainpc, collected, spec
vars == <<n, w, fails, queue, running, results, mainpc, collected, spec>>
CallOf == [op |-> "call", n |-> n, threads |-> w, fails |-> SetToSeq(fails), keyed |-> FALSE, boolean |-> FALSE, void |-> FALSE,
           keys |-> [i \in 1..n |-> i], xs |-> [i \in 1..n |-> i + 1]]
Init == /\ n \in 0..MaxN /\ w \in 2..MaxW /\ fails \in SUBSET (1..MaxN) /\ fails \subseteq 1..n
        /\ queue = <<>> /\ running = {} /\ results = [i \in {} |-> 0] /\ mainpc = <<"enqueue", 1>> /\ collected = <<>>
        /\ spec = [call |-> CallOf, begun |-> <<>>, ended |-> {}, done |-> FALSE]
Observe(e) == IF Verdict(spec, e) = "" THEN spec' = After(spec, e) ELSE spec' = [bad |-> Verdict(spec, e)]
Enqueue == mainpc[1] = "enqueue" /\ (IF mainpc[2] <= n THEN queue' = Append(queue, mainpc[2]) /\ mainpc' = <<"enqueue", mainpc[2] + 1>>
                                     ELSE queue' = queue /\ mainpc' = <<"wait", 1>>) /\ UNCHANGED <<n, w, fails, running, results, collected, spec>>
Take == /\ queue # <<>> /\ Cardinality(running) < w
        /\ queue' = Tail(queue) /\ running' = running \cup {<<Head(queue), FALSE>>} /\ UNCHANGED <<n, w, fails, results, mainpc, collected, spec>>
Begin == \E r \in running : ~ r[2] /\ running' = (running \ {r}) \cup {<<r[1], TRUE>>} /\ Observe([op |-> "begin", i |-> r[1]])
                            /\ UNCHANGED <<n, w, fails, queue, results, mainpc, collected>>
End == \E r \in running : r[2] /\ running' = running \ {r} /\ Observe([op |-> "end", i |-> r[1]])
                          /\ results' = (r[1] :> (IF r[1] \in fails THEN <<"threw", 0>> ELSE <<"value", Value(CallOf, r[1])>>)) @@ results
                          /\ UNCHANGED <<n, w, fails, queue, mainpc, collected>>
Wait == mainpc[1] = "wait" /\ (IF mainpc[2] > n THEN mainpc' = <<"get", 1>>
                               ELSE mainpc[2] \in DOMAIN results /\ mainpc' = <<"wait", mainpc[2] + 1>>)
        /\ UNCHANGED <<n, w, fails, queue, running, results, collected, spec>>
Get == /\ mainpc[1] = "get" /\ UNCHANGED <<n, w, fails, queue, running, results>>
       /\ IF mainpc[2] > n THEN mainpc' = <<"done", 0>> /\ collected' = collected /\ Observe([op |-> "return", ok |-> TRUE, out |-> collected])
          ELSE /\ mainpc[2] \in DOMAIN results
               /\ IF results[mainpc[2]][1] = "threw"
                  THEN mainpc' = <<"done", 0>> /\ collected' = collected /\ Observe([op |-> "return", ok |-> FALSE, error |-> mainpc[2]])
                  ELSE mainpc' = <<"get", mainpc[2] + 1>> /\ spec' = spec /\ collected' = Append(collected, <<mainpc[2], results[mainpc[2]][2]>>)
Next == Enqueue \/ Take \/ Begin \/ End \/ Wait \/ Get
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Allowed == "bad" \notin DOMAIN spec
Finishes == <>(mainpc[1] = "done" /\ running = {} /\ queue = <<>>)
=============================================================================
