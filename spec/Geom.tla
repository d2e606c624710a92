-------------------------------- MODULE Geom --------------------------------
(* Exact integer geometry on points <<x,y>> and <<x,y,z>>. *)
EXTENDS Integers, Sequences, FiniteSets

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b

Sub(a, b) == [k \in DOMAIN a |-> a[k] - b[k]]
Det2(a, b) == a[1] * b[2] - a[2] * b[1]
Det3(a, b, c) == a[1] * (b[2] * c[3] - b[3] * c[2])
               - a[2] * (b[1] * c[3] - b[3] * c[1])
               + a[3] * (b[1] * c[2] - b[2] * c[1])
Dot2(a, b) == a[1] * b[1] + a[2] * b[2]
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Dot(a, b) == IF Len(a) = 2 THEN Dot2(a, b) ELSE Dot3(a, b)
Cross3(a, b) == <<a[2]*b[3] - a[3]*b[2], a[3]*b[1] - a[1]*b[3], a[1]*b[2] - a[2]*b[1]>>
NormSq(a) == Dot(a, a)
DistSq(a, b) == NormSq(Sub(a, b))

(* twice the signed area, six times the signed volume *)
Orient2(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
Orient3(a, b, c, d) ==
  LET bx == b[1] - a[1]  by == b[2] - a[2]  bz == b[3] - a[3]
      cx == c[1] - a[1]  cy == c[2] - a[2]  cz == c[3] - a[3]
      dx == d[1] - a[1]  dy == d[2] - a[2]  dz == d[3] - a[3]
  IN  bx * (cy * dz - cz * dy) - by * (cx * dz - cz * dx) + bz * (cx * dy - cy * dx)

(* > 0 iff d is strictly inside the circle of the counterclockwise triangle a,b,c *)
InCircle(a, b, c, d) ==
  LET ax == a[1] - d[1]  ay == a[2] - d[2]
      bx == b[1] - d[1]  by == b[2] - d[2]
      cx == c[1] - d[1]  cy == c[2] - d[2]
  IN  (ax * ax + ay * ay) * (bx * cy - by * cx)
    - (bx * bx + by * by) * (ax * cy - ay * cx)
    + (cx * cx + cy * cy) * (ax * by - ay * bx)

(* > 0 iff e is strictly inside the sphere of the positively oriented tetrahedron a,b,c,d *)
InSphere(a, b, c, d, e) ==
  LET ax == a[1] - e[1]  ay == a[2] - e[2]  az == a[3] - e[3]
      bx == b[1] - e[1]  by == b[2] - e[2]  bz == b[3] - e[3]
      cx == c[1] - e[1]  cy == c[2] - e[2]  cz == c[3] - e[3]
      dx == d[1] - e[1]  dy == d[2] - e[2]  dz == d[3] - e[3]
      ab == ax * by - ay * bx   ac == ax * cy - ay * cx   ad == ax * dy - ay * dx
      bc == bx * cy - by * cx   bd == bx * dy - by * dx   cd == cx * dy - cy * dx
      \* minors of three points: det3(p,q,r) expanded along z
      bcd == bz * cd - cz * bd + dz * bc
      acd == az * cd - cz * ad + dz * ac
      abd == az * bd - bz * ad + dz * ab
      abc == az * bc - bz * ac + cz * ab
  IN  (ax*ax + ay*ay + az*az) * bcd - (bx*bx + by*by + bz*bz) * acd
    + (cx*cx + cy*cy + cz*cz) * abd - (dx*dx + dy*dy + dz*dz) * abc

Range(s) == {s[k] : k \in DOMAIN s}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Distinct(s) == Cardinality(Range(s)) = Len(s)
=============================================================================
