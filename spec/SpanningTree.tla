---------------------------- MODULE SpanningTree ----------------------------
(***************************************************************************)
(* C02.  A graph is a sequence of edges [a, b, cost, id] (endpoints are    *)
(* strings, cost a real) and a set of vertices.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Verdicts, Real

Edge(r) == [a |-> r[1], b |-> r[2], cost |-> R(r[3]), id |-> r[4]]
Ends(x) == {x.a, x.b}
Touched(E) == UNION {Ends(x) : x \in E}

\* connected components of (V, E) as a partition of V
Merge(P, x) == LET A == CHOOSE p \in P : x.a \in p
                   B == CHOOSE p \in P : x.b \in p
               IN  (P \ {A, B}) \cup {A \cup B}
RECURSIVE CompsFrom(_, _)
CompsFrom(P, E) == IF E = {} THEN P
                   ELSE LET x == CHOOSE x \in E : TRUE IN CompsFrom(Merge(P, x), E \ {x})
Components(V, E) == CompsFrom({{v} : v \in V}, E)
Acyclic(V, E) == Cardinality(Components(V, E)) = Cardinality(V) - Cardinality(E)

\* total cost
RECURSIVE Total(_)
Total(E) == IF E = {} THEN "0" ELSE LET x == CHOOSE x \in E : TRUE IN RAdd(x.cost, Total(E \ {x}))

\* Kruskal's algorithm as a definition of an optimal forest (sign = 1: minimum,
\* -1: maximum); MC_SpanningTree checks it against brute force.
Better(sign, x, y) == IF sign = 1 THEN RLt(x.cost, y.cost) ELSE RLt(y.cost, x.cost)
RECURSIVE Kruskal(_, _, _, _)
Kruskal(sign, P, E, F) ==
  IF E = {} THEN F
  ELSE LET x == CHOOSE x \in E : \A y \in E : ~Better(sign, y, x)
           same == \E p \in P : Ends(x) \subseteq p
       IN  IF same THEN Kruskal(sign, P, E \ {x}, F)
           ELSE Kruskal(sign, Merge(P, x), E \ {x}, F \cup {x})
Optimal(sign, V, E) == Total(Kruskal(sign, {{v} : v \in V}, E, {}))
IsForest(sign, V, E, F) ==
  /\ Acyclic(V, F)
  /\ Components(V, F) = Components(V, E)
  /\ REq(Total(F), Optimal(sign, V, E))

\* ---------------------------------------------------------------- events
Set(q) == {Edge(q[n]) : n \in DOMAIN q}
SameEdge(x, y) == x.id = y.id /\ x.cost = y.cost /\ Ends(x) = Ends(y)
Vs(q) == {q[n] : n \in DOMAIN q}

ForestVerdict(e, sign, tree) ==
  LET E == Set(e.edges)
      V == Vs(e.vertices)
      O == Set(e.out)
      F == {x \in E : \E y \in O : SameEdge(x, y)}
      OV == Vs(e.out_vertices)
      cs == Components(V, E)
  IN  FirstOf(<<
        Chk(\A y \in O : \E x \in E : SameEdge(x, y), "output edge is not an unchanged input edge"),
        Chk(Cardinality(F) = Len(e.out), "output repeats an edge"),
        Chk(Acyclic(V, F), "output contains a cycle"),
        Chk(Touched(O) \subseteq OV /\ OV \subseteq V, "output vertices do not match its edges"),
        IF ~tree \/ Cardinality(cs) <= 1
        THEN FirstOf(<<
               Chk(Components(V, F) = cs, "output does not connect what the input connects"),
               Chk(~tree \/ Cardinality(V) <= 1 \/ OV = V, "spanning tree misses a vertex"),
               Chk(Touched(O) = {v \in V : \E x \in E : v \in Ends(x) /\ x.a # x.b}, "output misses a connected vertex"),
               Chk(REq(Total(F), Optimal(sign, V, E)), "total cost is not optimal")>>)
        ELSE \* a tree operation on a disconnected graph spans one component
             IF \E c \in cs : LET Ec == {x \in E : x.a \in c}
                              IN Ec # {} /\ F \subseteq Ec /\ IsForest(sign, c, Ec, F) /\ Touched(O) \subseteq c
             THEN "" ELSE "tree of a disconnected graph does not span one of its components">>)

Adjacency(e) ==
  \* every vertex lists, in edge order, each incident edge oriented away from it
  LET RECURSIVE inc(_, _)
      inc(v, n) == IF n = 0 THEN <<>>
                   ELSE LET r == e.edges[n]
                            here == (IF r[1] = v THEN <<<<r[1], r[2], R(r[3]), r[4]>>>> ELSE <<>>) \o
                                    (IF r[2] = v THEN <<<<r[2], r[1], R(r[3]), r[4]>>>> ELSE <<>>)
                        IN inc(v, n - 1) \o here
  IN  {<<v, inc(v, Len(e.edges))>> : v \in Touched(Set(e.edges))}
Canon(q) == [n \in DOMAIN q |-> <<q[n][1], q[n][2], R(q[n][3]), q[n][4]>>]

RECURSIVE PrintGraph(_, _)
PrintGraph(q, n) == IF n = 0 THEN ""
               ELSE PrintGraph(q, n - 1) \o q[n][1] \o " <--> " \o q[n][2] \o " [" \o RPlain(q[n][3]) \o "]\n"

Start == 0
After(st, e) == st
Verdict(st, e) ==
  CASE e.op = "min_forest" -> ForestVerdict(e, 1, FALSE)
    [] e.op = "max_forest" -> ForestVerdict(e, -1, FALSE)
    [] e.op = "min_tree" -> ForestVerdict(e, 1, TRUE)
    [] e.op = "max_tree" -> ForestVerdict(e, -1, TRUE)
    [] e.op = "create" -> FirstOf(<<
         Chk(Canon(e.out) = Canon(e.edges), "created graph changed the edges"),
         Chk(Vs(e.out_vertices) = Touched(Set(e.edges)), "created graph has the wrong vertices")>>)
    [] e.op = "add_edge" -> FirstOf(<<
         Chk(Canon(e.out) = Append(Canon(e.edges), Canon(<<e.edge>>)[1]), "added edge missing or other edges changed"),
         Chk(Vs(e.out_vertices) = Vs(e.vertices) \cup Ends(Edge(e.edge)), "vertices after adding an edge")>>)
    [] e.op = "contains_vertex" -> Chk(e.out = (e.v \in Vs(e.vertices)), "vertex membership")
    [] e.op = "adjacency" ->
         Chk({<<e.out[n][1], Canon(e.out[n][2])>> : n \in DOMAIN e.out} = Adjacency(e)
             /\ Len(e.out) = Cardinality(Adjacency(e)), "adjacency lists")
    [] e.op = "print" -> Chk(e.out = PrintGraph(e.edges, Len(e.edges)), "graph text output")
=============================================================================
