------------------------------ MODULE MeshCase ------------------------------
(* A generated mesh is valid.
   Case: [dim, nP, T, sign, dup, Q, probes, m]
     T       cells (vertex numbers from 0), sign: sign of the orientation of every cell (exact)
     dup     pairs of vertices at the same position
     Q       positions on a lattice, probes: points of it, m: the margin of the test whether a point is inside of a cell *)
EXTENDS Geom, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

(* faces of cell number k with the direction in which the cell runs through them: the smallest number first *)
Rot3(a, b, c) == IF a < b /\ a < c THEN <<a, b, c>> ELSE IF b < c THEN <<b, c, a>> ELSE <<c, a, b>>
Directed(t) ==
  IF Len(t) = 3 THEN {<<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>>}
  ELSE {Rot3(t[2], t[4], t[3]), Rot3(t[1], t[3], t[4]), Rot3(t[1], t[4], t[2]), Rot3(t[1], t[2], t[3])}
Plain(t) == LET S == Range(t) IN {S \ {v} : v \in S}

Valid(c) == \A k \in DOMAIN c.T : Len(c.T[k]) = c.dim + 1 /\ \A n \in DOMAIN c.T[k] : c.T[k][n] \in 0..(c.nP - 1)
Cells(c) == {Range(c.T[k]) : k \in DOMAIN c.T}
Used(c) == UNION Cells(c)

(* a probe is inside of a cell and further than the margin from its faces *)
In2(q, a, b, d, m) ==
  LET E(u, v) == Orient2(u, v, q) > m * (Abs(u[1] - v[1]) + Abs(u[2] - v[2]))
  IN /\ MinI(MinI(a[1], b[1]), d[1]) < q[1] /\ q[1] < MaxI(MaxI(a[1], b[1]), d[1])
     /\ E(a, b) /\ E(b, d) /\ E(d, a)
In3(q, a, b, d, e, m) ==
  LET N(u, v, w) == LET x == Cross3(Sub(v, u), Sub(w, u)) IN Abs(x[1]) + Abs(x[2]) + Abs(x[3])
      F(u, v, w, x) == Orient3(u, v, w, x) > m * N(u, v, w)
  IN /\ MinI(MinI(a[1], b[1]), MinI(d[1], e[1])) < q[1] /\ q[1] < MaxI(MaxI(a[1], b[1]), MaxI(d[1], e[1]))
     /\ F(a, b, d, q) /\ F(a, d, e, q) /\ F(a, e, b, q) /\ F(b, e, d, q)
Inside(c, t, q) ==
  LET V(n) == c.Q[t[n] + 1]
  IN IF c.dim = 2 THEN In2(q, V(1), V(2), V(3), c.m) ELSE In3(q, V(1), V(2), V(3), V(4), c.m)
Cover(c, q) == {k \in DOMAIN c.T : Inside(c, c.T[k], q)}

Verdict(c) ==
  LET n == Len(c.T)
      solid == {k \in 1..n : c.sign[k] # 0}
  IN CASE n = 0 -> "no cells"
       [] ~Valid(c) -> "a cell refers to a vertex that does not exist"
       [] \E k \in 1..n : Cardinality(Range(c.T[k])) # c.dim + 1 -> "a cell repeats a vertex"
       [] Cardinality(Used(c)) # c.nP -> "a vertex is in no cell"
       [] c.dup # <<>> -> "two vertices at the same position"
       [] Cardinality(Cells(c)) # n -> "a cell is repeated"
       [] \E k \in 1..n : c.sign[k] < 0 -> "a cell is inverted"
       [] c.dim = 2 /\ solid # 1..n -> "a cell without area"
       [] c.dim = 2 /\ Cardinality(UNION {Directed(c.T[k]) : k \in 1..n}) # 3 * n -> "two cells on the same side of an edge"
       [] c.dim = 3 /\ Cardinality(UNION {Directed(c.T[k]) : k \in solid}) # 4 * Cardinality(solid) -> "two cells on the same side of a facet"
       [] c.dim = 3 /\ solid # 1..n /\ (LET F == TLCEval([k \in 1..n |-> Plain(c.T[k])])
                                        IN \E k \in (1..n) \ solid : \E f \in F[k] : Cardinality({j \in 1..n : f \in F[j]}) > 2)
            -> "a facet in more than two cells"
       [] \E k \in DOMAIN c.probes : Cardinality(Cover(c, c.probes[k])) > 1 -> "cells overlap"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
