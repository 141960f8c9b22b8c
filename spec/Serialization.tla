--------------------------- MODULE Serialization ---------------------------
(***************************************************************************)
(* C20.  An archive is the list of the values written to it.  Reading      *)
(* takes the next one and makes the cell it is read into hold exactly that *)
(* value, whatever the cell held before.  Values are what can be seen of   *)
(* an object: "is" must be the same to the last bit, "does" - numbers the  *)
(* object computes when used - up to rounding.  Writing what was read      *)
(* again gives the same archive.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Real, Verdicts

Start == [archive |-> <<>>, next |-> 1, type |-> "", reading |-> FALSE]
SameUse(a, b) == Len(a) = Len(b) /\ \A n \in 1..Len(a) : RSame(a[n], b[n])
Verdict(st, e) ==
  CASE e.op = "start" -> Chk(st.archive = <<>>, "harness: one archive at a time")
    [] e.op = "write" -> Chk(~st.reading, "harness: writes come first")
    [] e.op = "cell" -> Chk(st.next <= Len(st.archive), "harness: nothing left to read")
    [] e.op = "read" -> LET w == st.archive[st.next] IN
         FirstOf(<<Chk(e.value.is = w.is, "what is read is not what was written: " \o st.type), Chk(SameUse(e.value.does, w.does), "what is read does not behave like what was written: " \o st.type)>>)
    [] e.op = "rewritten" -> FirstOf(<<Chk(st.next = Len(st.archive) + 1, "harness: everything is read first"), Chk(e.same, "writing what was read gives another archive: " \o st.type)>>)
    [] OTHER -> "unknown event"
After(st, e) ==
  CASE e.op = "start" -> [st EXCEPT !.type = e.type \o " (" \o e.archive \o ")"]
    [] e.op = "write" -> [st EXCEPT !.archive = Append(@, e.value)]
    [] e.op = "cell" -> [st EXCEPT !.reading = TRUE]
    [] e.op = "read" -> [st EXCEPT !.next = @ + 1]
    [] OTHER -> st
=============================================================================
