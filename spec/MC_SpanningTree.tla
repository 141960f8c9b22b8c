-------------------------- MODULE MC_SpanningTree ---------------------------
(***************************************************************************)
(* Two algorithms as state machines over every small multigraph: Kruskal   *)
(* (any cheapest edge next) and Prim (any cheapest edge leaving the tree). *)
(* Both must end in a forest/tree whose cost brute force cannot beat.      *)
(***************************************************************************)
EXTENDS SpanningTree, Json, IOUtils, SequencesExt
CONSTANTS Verts, Costs, MaxEdges, GenEdges
Pairs == {p \in (Verts \X Verts) : TRUE}
\* raw edges, ids added by position
SeqsOf(S, n) == UNION {[1..m -> S] : m \in 0..n}
Raw == Pairs \X Costs
Mk(q) == [n \in DOMAIN q |-> <<q[n][1][1], q[n][1][2], q[n][2], n>>]
Inputs == {[edges |-> Mk(q)] : q \in SeqsOf(Raw, GenEdges)}
ASSUME ndJsonSerialize(IOEnv.GEN, SetToSeq(Inputs))

\* model checking uses undirected pairs and non-decreasing edge order only
Und == {p \in {<<v, w, c>> : v \in Verts, w \in Verts, c \in Costs} : TRUE}
Order(v) == CHOOSE n \in 1..Cardinality(Verts) : SetToSeq(Verts)[n] = v
UndEdges == {u \in Und : Order(u[1]) <= Order(u[2])}
USeq == SetToSeq(UndEdges)
Graphs == {g \in [1..MaxEdges -> 0..Len(USeq)] : \A n \in 1..(MaxEdges - 1) : g[n] <= g[n + 1]}
EdgesOf(g) == {[a |-> USeq[g[n]][1], b |-> USeq[g[n]][2], cost |-> R(USeq[g[n]][3]), id |-> n] :
                 n \in {n \in 1..MaxEdges : g[n] > 0}}

VARIABLES E, sign, left, F, mode, tree
vars == <<E, sign, left, F, mode, tree>>
V == Touched(E)
Init ==
  /\ \E g \in Graphs : E = EdgesOf(g)
  /\ sign \in {1, -1} /\ mode \in {"kruskal", "prim"} /\ left = E /\ F = {}
  /\ IF mode = "prim" /\ E # {} THEN tree \in {{x.a} : x \in {x \in E : \A y \in E : ~Better(sign, y, x)}} ELSE tree = {}
Joins(x) == \A p \in Components(V, F) : ~(Ends(x) \subseteq p)
KruskalStep == /\ mode = "kruskal"
               /\ \E x \in left : /\ \A y \in left : ~Better(sign, y, x)
                                  /\ left' = left \ {x}
                                  /\ F' = IF Joins(x) THEN F \cup {x} ELSE F
               /\ UNCHANGED <<E, sign, mode, tree>>
Leaving == {x \in E : Cardinality(Ends(x) \cap tree) = 1 /\ x.a # x.b}
PrimStep == /\ mode = "prim"
            /\ \E x \in Leaving : /\ \A y \in Leaving : ~Better(sign, y, x)
                                  /\ F' = F \cup {x} /\ tree' = tree \cup Ends(x)
            /\ UNCHANGED <<E, sign, left, mode>>
Next == KruskalStep \/ PrimStep
Done == IF mode = "kruskal" THEN left = {} ELSE Leaving = {}

BruteOptimal(W, D, G) ==  \* no acyclic connecting subset of D is better than G
  \A H \in SUBSET D : (Acyclic(W, H) /\ Components(W, H) = Components(W, D)) =>
       IF sign = 1 THEN RLeq(Total(G), Total(H)) ELSE RLeq(Total(H), Total(G))
AlwaysAcyclic == Acyclic(V, F)
KruskalOptimal == (mode = "kruskal" /\ Done) => (IsForest(sign, V, E, F) /\ BruteOptimal(V, E, F))
PrimOptimal == (mode = "prim" /\ Done /\ E # {}) =>
  LET D == {x \in E : x.a \in tree}
  IN  tree \in Components(V, E) /\ IsForest(sign, tree, D, F) /\ BruteOptimal(tree, D, F)
=============================================================================
