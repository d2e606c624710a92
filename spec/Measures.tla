------------------------------ MODULE Measures ------------------------------
(* Geometric measures of simplices with lattice vertices against their exact values.
   kind "simplex": [dim, P, vol, cen, qual, rer, dih, vgrad, cgrad]   P: dim+1 points
      vol    dim! times the signed volume (exact integer, or 10^8 if it is not one)
      cen    (dim+1) times the centroid
      qual   2D: quality in 1/250;   rer: square of the radius-edge ratio in 1/64
      dih    3D: the six cosines as sign * cos^2 in 1/32768, sorted
      vgrad  3D: 6 times the gradient of the volume for the face of the last three vertices
      cgrad  3D: gradient of the squared circumradius with respect to the first vertex in 1/64
   kind "det": [n, M, det]        kind "in": [P, pts, val]  containment of points *)
EXTENDS Geom, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

RECURSIVE IsqrtR(_, _, _)
IsqrtR(x, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= x \div m THEN IsqrtR(x, m, hi) ELSE IsqrtR(x, lo, m - 1)
Isqrt(x) == IF x = 0 THEN 0 ELSE IsqrtR(x, 0, MinI(x, 46340))

Orient(P) == IF Len(P) = 3 THEN Orient2(P[1], P[2], P[3]) ELSE Orient3(P[1], P[2], P[3], P[4])
Sum(P, d) == IF Len(P) = 3 THEN P[1][d] + P[2][d] + P[3][d] ELSE P[1][d] + P[2][d] + P[3][d] + P[4][d]
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y

(* quality of a triangle: 4 D^2 / (a b c (a + b + c)), D twice the area; in 1/250 *)
Qual(P) ==
  LET A == DistSq(P[1], P[2])  B == DistSq(P[2], P[3])  C == DistSq(P[1], P[3])
      D == Abs(Orient(P))
      M == Isqrt(A * B * C * 4096)                                          \* 64 a b c
      N == Isqrt(A * 4096) + Isqrt(B * 4096) + Isqrt(C * 4096)              \* 64 (a + b + c)
  IN (250 * 4 * D * D * 4096) \div (M * N)

(* twice the orientation determinant times the centre of the circumball relative to the last vertex *)
CN(a, b, c) ==       \* a, b, c relative to the fourth vertex
  LET u == Cross3(b, c)  v == Cross3(c, a)  w == Cross3(a, b)
  IN [d \in 1..3 |-> NormSq(a) * u[d] + NormSq(b) * v[d] + NormSq(c) * w[d]]

Rer(c) ==      \* |rer * (4 D^2 L) - 64 R-numerator| <= 4 D^2 L
  LET P == c.P
      L == MinSet({DistSq(P[x], P[y]) : <<x, y>> \in {z \in (1..Len(P)) \X (1..Len(P)) : z[1] < z[2]}})
      D == Orient(P)
      num == IF c.dim = 2 THEN DistSq(P[1], P[2]) * DistSq(P[2], P[3]) * DistSq(P[1], P[3])
             ELSE NormSq(CN(Sub(P[1], P[4]), Sub(P[2], P[4]), Sub(P[3], P[4])))
      den == (IF c.dim = 2 THEN 4 ELSE 4) * D * D * L
      \* 64 num / den within one unit of c.rer
      full == num \div den
      part == (64 * (num % den)) \div den
  IN Abs(c.rer - (64 * full + part)) <= 2

(* cosines of the six dihedral angles *)
Dih(P) ==
  LET One(x, y, z, w) ==      \* at the edge x y: angle between the half planes of z and w
        LET e == Sub(P[y], P[x])
            n1 == Cross3(e, Sub(P[z], P[x]))
            n2 == Cross3(e, Sub(P[w], P[x]))
            p == Dot3(n1, n2)
            q == NormSq(n1) * NormSq(n2)
        IN Sgn(p) * (((p * p) * 32768) \div q)
  IN <<One(1,2,3,4), One(1,3,2,4), One(1,4,2,3), One(2,3,1,4), One(2,4,1,3), One(3,4,1,2)>>
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>>
             ELSE LET m == MinSet(Range(s))
                      k == CHOOSE k \in DOMAIN s : s[k] = m
                  IN <<m>> \o Sorted([j \in 1..(Len(s) - 1) |-> IF j < k THEN s[j] ELSE s[j + 1]])

VGrad(P) == Cross3(Sub(P[3], P[2]), Sub(P[4], P[2]))

(* moving the first vertex moves the centre c along the normal n of the plane of the others:
   grad R^2 = 2 (c.n) / (p.n) (p - c), relative to the last vertex;  with c = C / (2 a), p.n = a *)
CGradOK(c) ==
  LET P == c.P
      p == Sub(P[1], P[4])  b == Sub(P[2], P[4])  e == Sub(P[3], P[4])
      n == Cross3(b, e)
      a == Dot3(p, n)
      C == CN(p, b, e)
      Cn == Dot3(C, n)
      den == 2 * a * a * a
  IN \A d \in 1..3 :
       LET num == Cn * (2 * a * p[d] - C[d])
           s == IF den < 0 THEN -1 ELSE 1
           full == (s * num) \div Abs(den)
           part == (64 * ((s * num) % Abs(den))) \div Abs(den)
       IN Abs(c.cgrad[d] - (64 * full + part)) <= 2

Simplex(c) ==
  LET D == Orient(c.P)
  IN CASE c.vol # D -> "signed volume"
       [] \E d \in 1..c.dim : c.cen[d] # Sum(c.P, d) -> "centroid"
       [] D = 0 -> IF c.dim = 2 /\ Abs(c.qual) > 1 THEN "quality of a flat triangle"
                    \* all four vertices in a plane, no three on a line: the angles are 0 and pi
                    ELSE IF c.dim = 3 /\ Len(c.dih) = 6 /\ (\E k \in 1..6 : Abs(Sorted(Dih(c.P))[k] - c.dih[k]) > 4) THEN "dihedral angles of a flat cell"
                    ELSE "ok"
       [] c.dim = 2 /\ Abs(c.qual - Qual(c.P)) > 7 -> "quality"
       [] ~Rer(c) -> "radius-edge ratio"
       [] c.dim = 3 /\ LET w == Sorted(Dih(c.P)) IN \E k \in 1..6 : Abs(w[k] - c.dih[k]) > 4 -> "dihedral angles"
       [] c.dim = 3 /\ Len(c.vgrad) = 3 /\ c.vgrad # VGrad(c.P) -> "gradient of the volume"
       [] c.dim = 3 /\ Len(c.cgrad) = 3 /\ ~CGradOK(c) -> "gradient of the circumradius"
       [] OTHER -> "ok"

RECURSIVE DetN(_)
Minor(M, k) == [r \in 1..(Len(M) - 1) |-> [s \in 1..(Len(M) - 1) |-> M[r + 1][IF s < k THEN s ELSE s + 1]]]
RECURSIVE DetSum(_, _)
DetSum(M, k) == IF k = 0 THEN 0 ELSE DetSum(M, k - 1) + (IF k % 2 = 1 THEN 1 ELSE -1) * M[1][k] * DetN(Minor(M, k))
DetN(M) == IF Len(M) = 1 THEN M[1][1] ELSE DetSum(M, Len(M))

Replace(P, k, x) == [P EXCEPT ![k] = x]
Inside(P, x) == LET s == Sgn(Orient(P)) IN \A k \in DOMAIN P : s * Sgn(Orient(Replace(P, k, x))) > 0
Outside(P, x) == LET s == Sgn(Orient(P)) IN \E k \in DOMAIN P : s * Sgn(Orient(Replace(P, k, x))) < 0
In(c) ==
  CASE \E k \in DOMAIN c.pts : Inside(c.P, c.pts[k]) /\ ~c.val[k] -> "a point inside the cell is not in it"
    [] \E k \in DOMAIN c.pts : Outside(c.P, c.pts[k]) /\ c.val[k] -> "a point outside of the cell is in it"
    [] OTHER -> "ok"

Verdict(c) == CASE c.kind = "simplex" -> Simplex(c)
                [] c.kind = "det" -> IF c.det = DetN(c.M) THEN "ok" ELSE "determinant"
                [] OTHER -> In(c)
Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
