---------------------------- MODULE DelaunayTrace ----------------------------
(* Recorded histories of the real incremental triangulation are checked against the
   operations of Delaunay.tla.  Case: [dim, ev] with events
   [op, a, b, V, T]: a, b points; V vertices listed after the operation; T cells (1-based);
   E edges of the selected cells S (only for op = "edges", which changes nothing). *)
EXTENDS Delaunay, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, k, pts, prev, grown, verdict
vars == <<i, k, pts, prev, grown, verdict>>

Init == /\ i \in 1..Len(Cases) /\ k = 0 /\ pts = {} /\ prev = <<>> /\ grown = TRUE /\ verdict = "ok"

Post(e) == CASE e.op = "insert" -> InsertOp(pts, e.a)
             [] e.op = "remove" -> RemoveOp(pts, e.a)
             [] e.op = "move" -> MoveOp(pts, e.a, e.b)
             [] OTHER -> pts

UEdge(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
CellEdges(t) == {UEdge(t[x], t[y]) : x \in DOMAIN t, y \in DOMAIN t} \ {<<t[x], t[x]>> : x \in DOMAIN t}
EdgesOK(e) == LET got == [n \in DOMAIN e.E |-> UEdge(e.E[n][1], e.E[n][2])]
                  exp == UNION {CellEdges(e.T[c]) : c \in {c \in DOMAIN e.T : e.S[c] = 1}}
              IN IF Range(got) # exp THEN "edges-are-not-those-of-the-cells"
                 ELSE IF ~Distinct(got) THEN "edge-listed-twice" ELSE "ok"

(* while vertices are only inserted, the earlier ones keep their places *)
PrefixKept(V) == Len(prev) <= Len(V) /\ \A n \in DOMAIN prev : V[n] = prev[n]

Judge(e, post, g) ==
  IF e.count # Cardinality(post) THEN "wrong-number-of-vertices"
  ELSE IF e.ncells # Len(e.T) THEN "wrong-number-of-cells"
  ELSE LET d == DelaunayOK(post, e.V, e.T, Cases[i].dim)
       IN IF d # "ok" THEN d
          ELSE IF g /\ k > 0 /\ ~PrefixKept(e.V) THEN "inserted-vertices-not-listed-last"
          ELSE IF e.op = "edges" THEN EdgesOK(e)
          ELSE "ok"

Next == /\ verdict = "ok"
        /\ k < Len(Cases[i].ev)
        /\ LET e == Cases[i].ev[k + 1]
               post == Post(e)
               g == grown /\ e.op \in {"insert", "edges"}
               v == Judge(e, post, g)
           IN /\ pts' = post /\ prev' = e.V /\ grown' = g
              /\ verdict' = v
              /\ IF v = "ok" THEN TRUE ELSE PrintT(<<"V", i, v>>)
        /\ k' = k + 1 /\ i' = i

Spec == Init /\ [][Next]_vars
=============================================================================
