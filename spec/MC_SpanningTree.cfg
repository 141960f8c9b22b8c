CONSTANTS
  Verts = {"1", "2", "3"}
  Costs = {"-1", "2"}
  MaxEdges = 4
  GenEdges = 3
INIT Init
NEXT Next
INVARIANTS AlwaysAcyclic KruskalOptimal PrimOptimal
CHECK_DEADLOCK FALSE
