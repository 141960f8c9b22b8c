------------------------------- MODULE MC_Csv -------------------------------
(***************************************************************************)
(* Writing and reading a table character by character: a writer emits the  *)
(* cells of each line between commas, in quotes when a cell holds a        *)
(* separator, and a reader that sees nothing but the characters recovers   *)
(* the table.  Emits feature structures for the driver.                    *)
(***************************************************************************)
EXTENDS Csv, Json, IOUtils, TLC
CONSTANTS MaxCell, MaxDepth

\* ------------------------------------------------------- feature structures
Leaf(t, v) == [k |-> "leaf", t |-> t, v |-> v]
LeafKinds == {Leaf("number", "7"), Leaf("text", "x"), Leaf("text", ""), Leaf("text", "p,q"), Leaf("text", "a b")}
RECURSIVE Trees(_)
Node(a) == [k |-> "node", c |-> a]
Child(n, x) == [n |-> n, x |-> x]
Trees(d) ==
  IF d = 0 THEN LeafKinds
  ELSE LET sub == LeafKinds \cup {Node(<<>>)} \cup (IF d = 1 THEN {} ELSE {Node(<<Child("c", x)>>) : x \in Trees(d - 2)})
       IN  {Node(<<>>)} \cup {Node(<<Child("a", x)>>) : x \in sub} \cup {Node(<<Child("a", x), Child("b", y)>>) : x, y \in sub}
Inputs == Trees(MaxDepth)
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))
\* names are the paths: as many as there are (non-empty) leaves, all different
RECURSIVE CountLeaves(_)
CountLeaves(x) == IF x.k = "leaf" THEN (IF x.v = "" THEN 0 ELSE 1) ELSE FoldLeft(LAMBDA s, c : s + CountLeaves(c.x), 0, x.c)
ASSUME \A x \in Inputs : Len(Feature(x)) = CountLeaves(x) /\ Cardinality(Names(Feature(x))) = CountLeaves(x)
ASSUME Names(Feature(Node(<<Child("a", Node(<<Child("b", Leaf("number", "1")), Child("c", Node(<<Child("d", Leaf("text", "y"))>>))>>))>>))) = {"a.b", "a.c.d"}
ASSUME Printed("0.100000", "0x1.999999999999ap-4") /\ ~Printed("0.100001", "0x1.999999999999ap-4") /\ Printed("-nan", "nan") /\ ~Printed("inf", "-inf")

\* -------------------------------------------------------------- characters
Chars == {"x", ",", "'", "/"}      \* a letter, the separator, the quote, the end of a line
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<c>> \o w : c \in Chars, w \in Words(n - 1)}
NeedsQuotes(w) == \E i \in 1..Len(w) : w[i] # "x"
RECURSIVE Doubled(_)
Doubled(w) == IF w = <<>> THEN <<>> ELSE (IF Head(w) = "'" THEN <<"'", "'">> ELSE <<Head(w)>>) \o Doubled(Tail(w))
Escaped(w) == IF NeedsQuotes(w) THEN <<"'">> \o Doubled(w) \o <<"'">> ELSE w

VARIABLES table, row, col, text, pos, mode, cell, line, lines
vars == <<table, row, col, text, pos, mode, cell, line, lines>>
Tables == {<< <<w>> >> : w \in Words(MaxCell)} \cup {<< <<w, v>> >> : w \in Words(MaxCell), v \in Words(MaxCell - 1)}
          \cup {<< <<w, v>>, <<y, z>> >> : w, v, y, z \in Words(1)}
Init == /\ table \in Tables /\ row = 1 /\ col = 1 /\ text = <<>>
        /\ pos = 0 /\ mode = "start" /\ cell = <<>> /\ line = <<>> /\ lines = <<>>
Write == /\ row <= Len(table)
         /\ LET last == col = Len(table[row]) IN
            /\ text' = text \o Escaped(table[row][col]) \o (IF last THEN <<"/">> ELSE <<",">>)
            /\ row' = IF last THEN row + 1 ELSE row
            /\ col' = IF last THEN 1 ELSE col + 1
         /\ UNCHANGED <<table, pos, mode, cell, line, lines>>
Read == \* may overtake the writer at any time
  /\ pos < Len(text) /\ pos' = pos + 1
  /\ LET c == text[pos + 1] IN
     IF mode = "quoted" THEN
        IF c = "'" THEN mode' = "quote" /\ UNCHANGED <<cell, line, lines>>
        ELSE cell' = Append(cell, c) /\ UNCHANGED <<mode, line, lines>>
     ELSE IF c = "'" /\ mode = "start" THEN mode' = "quoted" /\ UNCHANGED <<cell, line, lines>>
     ELSE IF c = "'" THEN mode' = "quoted" /\ cell' = Append(cell, "'") /\ UNCHANGED <<line, lines>>
     ELSE IF c = "," THEN mode' = "start" /\ line' = Append(line, cell) /\ cell' = <<>> /\ UNCHANGED lines
     ELSE IF c = "/" THEN mode' = "start" /\ lines' = Append(lines, Append(line, cell)) /\ line' = <<>> /\ cell' = <<>>
     ELSE mode' = "plain" /\ cell' = Append(cell, c) /\ UNCHANGED <<line, lines>>
  /\ UNCHANGED <<table, row, col, text>>
Next == Write \/ Read
\* whatever was read so far is a beginning of the table
SoFar == lines = SubSeq(table, 1, Len(lines))
Columns_ == Len(line) <= Len(table[1]) /\ (Len(lines) < Len(table) => line = SubSeq(table[Len(lines) + 1], 1, Len(line)))
Complete == (row > Len(table) /\ pos = Len(text)) => lines = table
=============================================================================
