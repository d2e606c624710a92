------------------------------ MODULE Topology ------------------------------
(* Queries of the connectivity of a mesh against their definitions.
   Case: [dim, nv, cells, edges, uniq, facets, bedges, bfacets, bverts, bents, vte, wind]  (0-based, lists of lists)
     edges    get_edges               facets   get_facets (3D)
     uniq     unique_edges of edges   bedges   get_boundary_edges (2D)      bfacets  get_boundary_facets (3D)
     bverts   get_boundary_vertices   bents    get_boundary_entities
     vte      entities around each vertex, from vertex_to_entities
     wind     get_winded_boundary_edges (2D, <<>> if the complex has no boundary) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

Range(s) == {s[k] : k \in DOMAIN s}
Sets(s) == [k \in DOMAIN s |-> Range(s[k])]
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, S, n(_)) == /\ Range(s) = S
                       /\ \A x \in S : Count(s, x) = n(x)
Subsets(S, n) == {f \in SUBSET S : Cardinality(f) = n}

Verdict(c) ==
  LET C == Sets(c.cells)
      N(f) == Cardinality({k \in DOMAIN C : f \subseteq C[k]})
      One(f) == 1
      E == UNION {Subsets(C[k], 2) : k \in DOMAIN C}
      F == UNION {Subsets(C[k], c.dim) : k \in DOMAIN C}
      B == {f \in F : N(f) = 1}
      BV == UNION B
      W == Sets(c.wind)
      n == Len(W)
      Other(e, v) == CHOOSE w \in e : w # v
      \* W is one closed trail after the other
      RECURSIVE Trail(_, _, _)
      Begin(k) == \E v \in W[k] : Trail(k + 1, v, Other(W[k], v))
      Trail(k, s, cur) == IF k > n THEN cur = s
                          ELSE \/ cur \in W[k] /\ Trail(k + 1, s, Other(W[k], cur))
                               \/ cur = s /\ Begin(k)
  IN CASE ~SameBag(Sets(c.edges), E, N) -> "get_edges"
       [] ~SameBag(Sets(c.uniq), E, One) \/ (\E k \in DOMAIN c.uniq : c.uniq[k][1] >= c.uniq[k][2]) -> "unique_edges"
       [] c.dim = 3 /\ ~SameBag(Sets(c.facets), F, N) -> "get_facets"
       [] c.dim = 2 /\ ~SameBag(Sets(c.bedges), B, One) -> "get_boundary_edges"
       [] c.dim = 3 /\ ~SameBag(Sets(c.bfacets), B, One) -> "get_boundary_facets"
       [] ~SameBag(c.bverts, BV, One) -> "get_boundary_vertices"
       [] ~SameBag(c.bents, {k - 1 : k \in {k \in DOMAIN C : C[k] \cap BV # {}}}, One) -> "get_boundary_entities"
       [] Len(c.vte) # c.nv -> "vertex_to_entities: number of vertices"
       [] \E v \in 0..(c.nv - 1) : ~SameBag(c.vte[v + 1], {k - 1 : k \in {k \in DOMAIN C : v \in C[k]}}, One) -> "vertex_to_entities"
       [] c.dim = 2 /\ B # {} /\ ~SameBag(W, B, One) -> "get_winded_boundary_edges: not every boundary edge once"
       [] c.dim = 2 /\ B # {} /\ (\A f \in F : N(f) <= 2) /\ ~Begin(1) -> "get_winded_boundary_edges: loops are not traversed one after the other"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
