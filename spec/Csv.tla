--------------------------------- MODULE Csv ---------------------------------
(***************************************************************************)
(* C25.  A text is a sequence of lines of cells.  Writing a table appends  *)
(* a header (each column once) and one line per element; the cell under a  *)
(* column is the element's value of that name, empty when it has none.     *)
(* What names a feature has follows from its structure: the path to each   *)
(* of its leaves, joined by dots.                                          *)
(* st.text is the text so far, st.ens the ensembles a sampler handed to    *)
(* its callbacks, st.best the most likely state among them.                *)
(***************************************************************************)
EXTENDS Real, Verdicts, Sequences, Integers, FiniteSets, SequencesExt

Start == [text |-> <<>>, ens |-> <<>>, iteration |-> 0]

\* ------------------------------------------------------------------ features
\* a node is a leaf [k |-> "leaf", t |-> type, v |-> value] or
\* [k |-> "node", c |-> << [n |-> name, x |-> node], .. >>]
RECURSIVE Leaves(_, _)
Leaves(prefix, node) ==
  IF node.k = "leaf" THEN (IF node.t = "text" /\ node.v = "" THEN <<>> ELSE <<[n |-> prefix, t |-> node.t, v |-> node.v]>>)
  ELSE LET RECURSIVE All(_)
           All(i) == IF i > Len(node.c) THEN <<>>
                     ELSE Leaves(IF prefix = "" THEN node.c[i].n ELSE prefix \o "." \o node.c[i].n, node.c[i].x) \o All(i + 1)
       IN  All(1)
Feature(f) == IF f.k = "leaf" THEN Leaves(f.n, f) ELSE Leaves("", f)  \* a feature that is a leaf has a name of its own

\* -------------------------------------------------------------------- values
Special(x) == CASE x = "nan" -> {"nan", "-nan"} [] x = "inf" -> {"inf"} [] OTHER -> {"-inf"}
Printed(cell, x) == \* six decimals
  IF RIsFinite(x) THEN RIsFinite(cell) /\ RLeq(RAbs(RSub(cell, x)), "5.0001e-7") ELSE cell \in Special(x)
Shows(cell, v) ==
  CASE v.t = "text" -> cell = v.v
    [] v.t = "fixed" -> Printed(cell, v.v)
    [] OTHER -> IF RIsFinite(v.v) THEN RIsFinite(cell) /\ RNear(cell, v.v, "3e-16", "0") ELSE cell \in Special(v.v)

\* the values of row i of a data set: feature, target, prediction, metadata
Own(e, i) == <<[n |-> "target", t |-> "fixed", v |-> e.target[i]],
               [n |-> "target_variance", t |-> "fixed", v |-> e.target_variance[i]],
               [n |-> "prediction", t |-> "fixed", v |-> e.prediction[i]],
               [n |-> "prediction_variance", t |-> "fixed", v |-> e.prediction_variance[i]]>>
Meta(m) == [k \in 1..Len(m) |-> [n |-> m[k][1], t |-> "text", v |-> m[k][2]]]
Row(e, i) == Feature(e.features[i]) \o Own(e, i) \o Meta(e.metadata) \o Meta(e.prediction_metadata)
Rows(sets) == FlattenSeq([s \in 1..Len(sets) |-> [i \in 1..Len(sets[s].features) |-> Row(sets[s], i)]])
Names(row) == {row[k].n : k \in 1..Len(row)}
Columns(rows) == UNION {Names(rows[i]) : i \in 1..Len(rows)}

\* --------------------------------------------------------------------- tables
LineShows(line, columns, row) ==
  /\ Len(line) = Len(columns)
  /\ \A c \in 1..Len(columns) :
       IF \E k \in 1..Len(row) : row[k].n = columns[c]
       THEN \E k \in 1..Len(row) : row[k].n = columns[c] /\ Shows(line[c], row[k])
       ELSE line[c] = ""
Appended(st, e) == SubSeq(e.text, Len(st.text) + 1, Len(e.text))
Extends(st, e) == Len(e.text) >= Len(st.text) /\ SubSeq(e.text, 1, Len(st.text)) = st.text
\* a table of these rows under these columns was appended, after a header or not
Body(what, lines, columns, rows) ==
  IF Len(lines) # Len(rows) THEN what \o ": number of rows"
  ELSE IF \E i \in 1..Len(rows) : Len(lines[i]) # Len(columns) THEN what \o ": number of values in a row"
  ELSE Chk(\A i \in 1..Len(rows) : LineShows(lines[i], columns, rows[i]), what \o ": a value under a column")
Header(what, line, names) ==
  FirstOf(<<Chk(Cardinality(ToSet(line)) = Len(line), what \o ": a column is named twice"),
            Chk(names \subseteq ToSet(line), what \o ": a column is not named"),
            Chk(ToSet(line) \subseteq names, what \o ": a column without values")>>)
TableVerdict(st, e) ==
  LET rows == Rows(e.sets) new == Appended(st, e) IN
  IF ~e.good THEN e.form \o ": the stream was left unusable"
  ELSE IF ~Extends(st, e) THEN e.form \o ": earlier text changed"
  ELSE IF ~e.closed THEN e.form \o ": the last line is not ended"
  ELSE IF e.columns # <<>> THEN Body(e.form, new, e.columns, rows)
  ELSE IF rows = <<>> THEN Chk(new \in {<<>>, << <<"">> >>}, e.form \o ": text for nothing")
  ELSE IF ~e.header
       THEN FirstOf(<<Header(e.form, e.order, Columns(rows)), Body(e.form, new, e.order, rows)>>)
  ELSE IF new = <<>> THEN e.form \o ": nothing was written"
  ELSE FirstOf(<<Header(e.form, new[1], Columns(rows)), Body(e.form, Tail(new), new[1], rows)>>)
MatrixVerdict(st, e) ==
  LET new == Appended(st, e) IN
  FirstOf(<<Chk(Extends(st, e), "matrix: earlier text changed"),
            Chk(Len(new) = Len(e.x), "matrix: number of rows"),
            Chk(Len(new) = Len(e.x) => \A i \in 1..Len(new) : Len(new[i]) = Len(e.x[i]) /\
                  \A k \in 1..Len(new[i]) : IF RIsFinite(e.x[i][k]) THEN RIsFinite(new[i][k]) /\ RNear(new[i][k], e.x[i][k], "5.1e-6", "0") ELSE new[i][k] \in Special(e.x[i][k]),
                "matrix: an entry")>>)

\* ----------------------------------------------------------- sampled ensembles
\* params: sequence of [n, v, fixed, log, lower, upper], in the order of the names
Tunable(params) == SelectSeq(params, LAMBDA p : ~p.fixed)
Position(params, n) == CHOOSE k \in 1..Len(Tunable(params)) : Tunable(params)[k].n = n
Clamp(x, p) == RMax(p.lower, RMin(p.upper, x))
\* positions along logarithmic parameters are logarithms; values stay inside of their bounds
Actual(x, p) == Clamp(IF p.log THEN RExp(x) ELSE x, p)
Value(params, walker, p) == IF p.fixed THEN p.v ELSE Actual(walker.p[Position(params, p.n)], p)
WalkerRow(params, iteration, i, walker) ==
  <<[n |-> "iteration", t |-> "number", v |-> iteration], [n |-> "ensemble_index", t |-> "number", v |-> i - 1],
    [n |-> "log_probability", t |-> "fixed", v |-> walker.lp]>> \o
  [k \in 1..Len(params) |-> [n |-> params[k].n, t |-> "fixed", v |-> Value(params, walker, params[k])]]
EnsembleRows(e) == [i \in 1..Len(e.ens) |-> WalkerRow(e.params, e.iteration, i, e.ens[i])]
StateVerdict(st, e) ==
  LET new == Appended(st, e) rows == EnsembleRows(e) IN
  IF ~e.good THEN "ensemble: the stream was left unusable"
  ELSE IF ~Extends(st, e) THEN "ensemble: earlier text changed"
  ELSE IF e.iteration = 0
       THEN IF new = <<>> THEN "ensemble: nothing was written"
            ELSE FirstOf(<<Header("ensemble", new[1], Columns(rows)), Body("ensemble", Tail(new), new[1], rows)>>)
       ELSE Body("ensemble", new, st.text[1], rows)
\* reading gives back the last ensemble, as printed
ReadVerdict(st, e) ==
  LET tun == Tunable(e.params) IN
  FirstOf(<<Chk(Len(e.maps) = Len(st.ens) /\ Len(e.values) = Len(st.ens), "read: number of walkers"),
            Chk(Len(e.maps) = Len(st.ens) => \A i \in 1..Len(st.ens) :
                  /\ Len(e.maps[i]) = Len(e.params)
                  /\ \A k \in 1..Len(e.params) : \E m \in 1..Len(e.maps[i]) :
                       e.maps[i][m][1] = e.params[k].n /\ Printed(e.maps[i][m][2], Value(e.params, st.ens[i], e.params[k])),
                "read: parameters of a walker"),
            Chk(Len(e.values) = Len(st.ens) => \A i \in 1..Len(st.ens) :
                  /\ Len(e.values[i]) = Len(tun)
                  /\ \A k \in 1..Len(tun) : RNear(IF tun[k].log THEN RExp(e.values[i][k]) ELSE e.values[i][k], Actual(st.ens[i].p[k], tun[k]), "1e-14", "5.0001e-7")
                                            /\ (~tun[k].log => RLeq(tun[k].lower, e.values[i][k]) /\ RLeq(e.values[i][k], tun[k].upper)),
                "read: tunable values of a walker")>>)
\* the state a tracking callback keeps is the most likely one it has seen
Better(a, b) == RLt(b.lp, a.lp)
BestVerdict(st, e) ==
  LET seen == FlattenSeq(e.seen)
      usable == SelectSeq(seen, LAMBDA w : RLt("-inf", w.lp))
  IN IF usable = <<>> THEN Chk(e.ll = "-inf" /\ \A k \in 1..Len(e.params) : REq(e.kept[k], e.params[k].v), "best: something was kept")
     ELSE LET top == {usable[i] : i \in {i \in 1..Len(usable) : \A k \in 1..Len(usable) : ~Better(usable[k], usable[i])}}
          IN FirstOf(<<Chk(\E w \in top : REq(e.ll, w.lp), "best: log probability"),
                       Chk(\E w \in top : \A k \in 1..Len(e.params) : RNear(e.kept[k], Value(e.params, w, e.params[k]), "1e-14", "0"), "best: parameters")>>)

Verdict(st, e) ==
  CASE e.op = "table" -> TableVerdict(st, e)
    [] e.op = "matrix" -> MatrixVerdict(st, e)
    [] e.op = "state" -> StateVerdict(st, e)
    [] e.op = "read" -> ReadVerdict(st, e)
    [] e.op = "best" -> BestVerdict(st, e)
    [] e.op = "names" -> \* the names and values of one feature
         LET leaves == Feature(e.feature) IN
         FirstOf(<<Chk(Len(e.map) = Len(leaves), "feature: number of names"),
                   Chk(Len(e.map) = Len(leaves) => \A k \in 1..Len(leaves) : \E m \in 1..Len(e.map) : e.map[m][1] = leaves[k].n /\ Shows(e.map[m][2], leaves[k]), "feature: a name and its value")>>)
After(st, e) ==
  CASE e.op \in {"table", "matrix"} -> [st EXCEPT !.text = e.text]
    [] e.op = "state" -> [st EXCEPT !.text = e.text, !.ens = e.ens, !.iteration = e.iteration]
    [] OTHER -> st
=============================================================================
