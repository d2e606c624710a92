------------------------------ MODULE Delaunay ------------------------------
(* What an incremental Delaunay triangulation is and how its operations change it.
   The state is the set of points it contains.  A listing (V, T) of a state is the
   sequence of its vertices and the sequence of its cells, with indices 1.. into V. *)
EXTENDS Geom

(* ---- the operations, on the set of points; lists are processed in order ---- *)
InsertOp(pts, new) == pts \cup Range(new)
RemoveOp(pts, old) == pts \ Range(old)
(* moving a point onto another one leaves one point there *)
RECURSIVE MoveOp(_, _, _)
MoveOp(pts, from, to) ==
  IF from = <<>> THEN pts
  ELSE MoveOp((pts \ {Head(from)}) \cup {Head(to)}, Tail(from), Tail(to))

(* ---- the triangulation of a set of points ---- *)
AllCollinear2(S) == \A a, b \in S : a = b \/ \A c \in S : Orient2(a, b, c) = 0
AllCoplanar3(S) ==
  \/ Cardinality(S) < 4
  \/ LET a == CHOOSE x \in S : TRUE
     IN  \/ S = {a}
         \/ LET b == CHOOSE x \in S \ {a} : TRUE
                L == {x \in S : Cross3(Sub(b, a), Sub(x, a)) # <<0, 0, 0>>}
            IN  \/ L = {}
                \/ LET c == CHOOSE x \in L : TRUE
                   IN \A d \in S : Orient3(a, b, c, d) = 0

Edges2(t) == {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
(* facets of a positively oriented tetrahedron, such that the cell lies on the positive side; smallest index first *)
RotF(f) == IF f[1] < f[2] /\ f[1] < f[3] THEN f
           ELSE IF f[2] < f[3] THEN <<f[2], f[3], f[1]>> ELSE <<f[3], f[1], f[2]>>
Facets3(t) == {RotF(<<t[1], t[2], t[3]>>), RotF(<<t[1], t[3], t[4]>>),
               RotF(<<t[1], t[4], t[2]>>), RotF(<<t[2], t[4], t[3]>>)}
RevE(e) == <<e[2], e[1]>>
RevF(f) == RotF(<<f[1], f[3], f[2]>>)

IndicesOK(V, T, n) == \A k \in DOMAIN T : Len(T[k]) = n /\ \A m \in 1..n : T[k][m] \in DOMAIN V

(* the first clause of the definition that the listing breaks, or "ok" *)
Delaunay2(pts, V, T) ==
  IF Range(V) # pts THEN "vertices-are-not-the-points"
  ELSE IF Len(V) # Cardinality(pts) THEN "vertex-listed-twice"
  ELSE IF ~IndicesOK(V, T, 3) THEN "cell-index-out-of-range"
  ELSE IF \E k \in DOMAIN T : Orient2(V[T[k][1]], V[T[k][2]], V[T[k][3]]) <= 0 THEN "cell-not-positively-oriented"
  ELSE IF AllCollinear2(pts) THEN (IF T = <<>> THEN "ok" ELSE "cells-on-collinear-points")
  ELSE IF T = <<>> THEN "no-cells"
  ELSE IF \E k \in DOMAIN T : \E v \in DOMAIN V : InCircle(V[T[k][1]], V[T[k][2]], V[T[k][3]], V[v]) > 0
    THEN "point-inside-circumcircle"
  ELSE LET E == UNION {Edges2(T[k]) : k \in DOMAIN T}
           B == {e \in E : RevE(e) \notin E}
       IN  IF Cardinality(E) # 3 * Len(T) THEN "cells-overlap-at-an-edge"
           ELSE IF \E e \in B : \E v \in DOMAIN V : Orient2(V[e[1]], V[e[2]], V[v]) < 0 THEN "boundary-is-not-the-hull"
           ELSE IF UNION {Range(T[k]) : k \in DOMAIN T} # DOMAIN V THEN "vertex-in-no-cell"
           ELSE "ok"

Scale(a, m) == [k \in DOMAIN a |-> m * a[k]]
Sum4(V, t) == [k \in 1..3 |-> V[t[1]][k] + V[t[2]][k] + V[t[3]][k] + V[t[4]][k]]
(* x / m lies in the closed cell t *)
Contains3(V, t, x, m) ==
  LET a == Scale(V[t[1]], m)  b == Scale(V[t[2]], m)  c == Scale(V[t[3]], m)  d == Scale(V[t[4]], m)
  IN  /\ Orient3(x, b, c, d) >= 0 /\ Orient3(a, x, c, d) >= 0
      /\ Orient3(a, b, x, d) >= 0 /\ Orient3(a, b, c, x) >= 0

Delaunay3(pts, V, T) ==
  IF Range(V) # pts THEN "vertices-are-not-the-points"
  ELSE IF Len(V) # Cardinality(pts) THEN "vertex-listed-twice"
  ELSE IF ~IndicesOK(V, T, 4) THEN "cell-index-out-of-range"
  ELSE IF \E k \in DOMAIN T : Orient3(V[T[k][1]], V[T[k][2]], V[T[k][3]], V[T[k][4]]) <= 0
    THEN "cell-not-positively-oriented"
  ELSE IF AllCoplanar3(pts) THEN (IF T = <<>> THEN "ok" ELSE "cells-on-coplanar-points")
  ELSE IF T = <<>> THEN "no-cells"
  ELSE IF \E k \in DOMAIN T : \E v \in DOMAIN V :
            InSphere(V[T[k][1]], V[T[k][2]], V[T[k][3]], V[T[k][4]], V[v]) > 0
    THEN "point-inside-circumsphere"
  ELSE LET F == UNION {Facets3(T[k]) : k \in DOMAIN T}
           B == {f \in F : RevF(f) \notin F}
       IN  IF Cardinality(F) # 4 * Len(T) THEN "cells-overlap-at-a-facet"
           ELSE IF \E f \in B : \E v \in DOMAIN V : Orient3(V[f[1]], V[f[2]], V[f[3]], V[v]) < 0
             THEN "boundary-is-not-the-hull"
           ELSE IF UNION {Range(T[k]) : k \in DOMAIN T} # DOMAIN V THEN "vertex-in-no-cell"
           (* the cells cover the hull a constant number of times: once, if a single point is covered once *)
           ELSE IF \E k \in 2..Len(T) : Contains3(V, T[k], Sum4(V, T[1]), 4) THEN "cells-overlap"
           ELSE "ok"

(* a listing must also respect the order of the previous one while vertices are only inserted *)
DelaunayOK(pts, V, T, dim) == IF dim = 2 THEN Delaunay2(pts, V, T) ELSE Delaunay3(pts, V, T)
=============================================================================
