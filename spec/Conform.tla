------------------------------ MODULE Conform ------------------------------
(* A generated mesh conforms to its domain.
   All positions and parameters are integers (S steps per unit of length).
   Case: [dim, tree, h, Q, T, R, s, probes, sub]
     tree    the domain (module Shapes), h: the edge length in steps
     Q, T    positions of the vertices and cells (vertex numbers from 0)
     N       the cell at the face opposite to every vertex of every cell, 0: none
     R, z    the positions on a lattice that is coarser by the factor z, for the test whether a cell covers a point
     probes  points that have to be covered if they are far enough inside of the domain
     S, W, w, miss  (boxes) steps per unit of length; the positions on a lattice with w steps instead, rounded, and the part of
             the box that may be left out, per mille
     sbox    the box in which the size function is defined, if the domain is padded to contain it (else <<>>)
     sub     subdomains (shapes) whose interfaces the mesh has to follow *)
EXTENDS Geom, Within, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

(* what the recorded neighbours (0: none) are worth: a face that is said to be shared is *)
Face(t, n) == Range(t) \ {t[n]}
Shared(c) == \A k \in DOMAIN c.T : \A n \in DOMAIN c.T[k] :
               c.N[k][n] # 0 => c.N[k][n] # k /\ Face(c.T[k], n) \subseteq Range(c.T[c.N[k][n]])
Boundary(c) == UNION UNION {{Face(c.T[k], n) : n \in {n \in DOMAIN c.T[k] : c.N[k][n] = 0}} : k \in DOMAIN c.T}

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Centroid(c, t) == [d \in 1..c.dim |-> SumTo([n \in 1..c.dim + 1 |-> c.Q[t[n] + 1][d]], c.dim + 1) \div (c.dim + 1)]

(* q is in the cell or close to it (coarse lattice) *)
Low(V, d) == MinI(MinI(V[1][d], V[2][d]), IF Len(V) = 4 THEN MinI(V[3][d], V[4][d]) ELSE V[3][d])
High(V, d) == -Low([n \in DOMAIN V |-> [e \in DOMAIN V[n] |-> -V[n][e]]], d)
Covers(V, q) ==
  /\ \A d \in DOMAIN q : Low(V, d) - 1 <= q[d] /\ q[d] <= High(V, d) + 1
  /\ IF Len(V) = 3
     THEN LET E(a, b) == Orient2(a, b, q) >= -2 * (Abs(a[1] - b[1]) + Abs(a[2] - b[2]))
          IN E(V[1], V[2]) /\ E(V[2], V[3]) /\ E(V[3], V[1])
     ELSE LET M(u, v, w) == LET x == Cross3(Sub(v, u), Sub(w, u)) IN Abs(x[1]) + Abs(x[2]) + Abs(x[3])
              F(u, v, w) == Orient3(u, v, w, q) >= -M(u, v, w)
          IN F(V[1], V[2], V[3]) /\ F(V[1], V[3], V[4]) /\ F(V[1], V[4], V[2]) /\ F(V[2], V[4], V[3])

(* what is tolerated, in hundredths of the edge length; in 3D some vertices at the boundary can not be moved onto it *)
Out(c) == IF c.dim = 2 THEN 1 ELSE 70
Deep(c) == IF c.dim = 2 THEN 100 ELSE 170
Hole(c) == 100
ManyOut(c, n) == IF c.dim = 2 THEN 0 ELSE 3 + n \div 4
ManyDeep(c, n) == IF c.dim = 2 THEN 2 ELSE 4 + n \div 10
Len100(c, e) == (c.h * e) \div 100 + 2

(* the faces between the cells inside of a subdomain and the others *)
Interface(c, s) ==
  LET I == {k \in DOMAIN c.T : Within(s, Centroid(c, c.T[k]), 0)}
  IN UNION UNION {{Face(c.T[k], n) : n \in {n \in DOMAIN c.T[k] : c.N[k][n] # 0 /\ c.N[k][n] \notin I}} : k \in I}
Follows(c, s, B) ==
  LET V == Interface(c, s) \ B
      e == Len100(c, 1)
      off == {v \in V : ~Within(s, c.Q[v + 1], e) \/ Within(s, c.Q[v + 1], -e)}
      far == {v \in V : ~Within(s, c.Q[v + 1], Len100(c, 150)) \/ Within(s, c.Q[v + 1], -Len100(c, 150))}
  IN V # {} /\ far = {} /\ 4 * Cardinality(off) <= 3 * Cardinality(V)

(* dim! times the volumes, on the coarser lattice *)
RECURSIVE SumTree(_, _, _)
SumTree(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a]
                    ELSE LET m == (a + b) \div 2 IN SumTree(f, a, m) + SumTree(f, m + 1, b)
Filled(c) == LET f == TLCEval([k \in DOMAIN c.T |-> LET t == c.T[k]  V == [n \in DOMAIN t |-> c.W[t[n] + 1]]
                                                    IN Abs(IF c.dim = 2 THEN Orient2(V[1], V[2], V[3]) ELSE Orient3(V[1], V[2], V[3], V[4]))])
             IN SumTree(f, 1, Len(f))
Whole(c) == LET a == c.tree.a  s(n) == ((a[2 * n] - a[2 * n - 1]) \div c.S) * c.w
            IN IF c.dim = 2 THEN 2 * s(1) * s(2) ELSE 6 * s(1) * s(2) * s(3)
Fills(c) == c.tree.kind = "box" /\ c.miss >= 0 =>
              LET w == Whole(c)  d == w - Filled(c) IN d <= (w \div 1000) * c.miss /\ -d <= 2 * (w \div 1000)

Judge(c) ==
  LET B == TLCEval(Boundary(c))
      nB == Cardinality(B)
      e == Len100(c, 1)
      out == {v \in 0..(Len(c.Q) - 1) : ~Within(c.tree, c.Q[v + 1], e)}
      deep == {v \in B : Within(c.tree, c.Q[v + 1], -e)}
  IN CASE ~Shared(c) -> "the record of neighbours is wrong"
       [] \E v \in out : ~Within(c.tree, c.Q[v + 1], Len100(c, Out(c))) -> "a vertex is outside of the domain"
       [] Cardinality(out) > ManyOut(c, nB) -> "many vertices are outside of the domain"
       [] \E v \in deep : Within(c.tree, c.Q[v + 1], -Len100(c, Deep(c))) -> "a boundary vertex is far inside of the domain"
       [] Cardinality(deep) > ManyDeep(c, nB) -> "boundary vertices are not on the boundary of the domain"
       [] \E k \in DOMAIN c.T : ~Within(c.tree, Centroid(c, c.T[k]), 2) -> "a cell outside of the domain"
       [] \E n \in DOMAIN c.probes : /\ Within(c.tree, c.probes[n], -Len100(c, Hole(c)))
                                     /\ LET q == [d \in 1..c.dim |-> c.probes[n][d] \div c.z]
                                        IN ~\E k \in DOMAIN c.T : Covers([m \in DOMAIN c.T[k] |-> c.R[c.T[k][m] + 1]], q)
            -> "a part of the domain is not covered"
       [] ~Fills(c) -> "the cells do not fill the domain"
       [] \E k \in DOMAIN c.sub : ~Follows(c, c.sub[k], B) -> "the interface of a subdomain is not followed"
       [] OTHER -> "ok"

Verdict(c) == Judge([c EXCEPT !.tree = Padded(c.tree, c.sbox)])

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
