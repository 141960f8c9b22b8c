---------------------------- MODULE Trace_@SPEC@ ----------------------------
(***************************************************************************)
(* Trace validation (instantiated by tools/check.py with @SPEC@).  The log *)
(* holds one recorded behaviour of the real code per line:                 *)
(* [steps |-> <<event, ...>>].  Every behaviour starts in its own initial  *)
(* state; the k-th step is enabled only when the specification allows the  *)
(* recorded event in the specification state reached so far                *)
(* (Verdict(st, e) = ""), and After(st, e) is the successor state.  A      *)
(* rejected step is reported and not taken, so the number of distinct      *)
(* states equals events + behaviours exactly when everything is accepted.  *)
(***************************************************************************)
EXTENDS @SPEC@, Json, IOUtils
VARIABLES i, k, st

Log == ndJsonDeserialize(IOEnv.TRACE)

Init == i \in 1..Len(Log) /\ k = 0 /\ st = Start

Next ==
  /\ k < Len(Log[i].steps)
  /\ LET e == Log[i].steps[k + 1]
         v == Verdict(st, e)
     IN  IF v = "" THEN k' = k + 1 /\ i' = i /\ st' = After(st, e)
         ELSE PrintT(<<"REJECT", i, k + 1, v>>) /\ FALSE
=============================================================================
