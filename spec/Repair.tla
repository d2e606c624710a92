------------------------------- MODULE Repair -------------------------------
(* Mesh repair.  P, T: lattice vertices and cells (0-based) before, p1, t1 after; thr: quality threshold in 1/250
   kind "delete"   delete_boundary_entities
   kind "overlap"  do_any_overlap; pairs: reported pairs of cells
   kind "linter"   linter
   Qualities are compared with a margin; a cell whose quality is within it may or may not be poor. *)
EXTENDS Geom, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
Margin == 12

RECURSIVE IsqrtR(_, _, _)
IsqrtR(x, lo, hi) == IF lo = hi THEN lo
                     ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= x \div m THEN IsqrtR(x, m, hi) ELSE IsqrtR(x, lo, m - 1)
Isqrt(x) == IF x = 0 THEN 0 ELSE IsqrtR(x, 0, MinI(x, 46340))

Pts(P, c) == [k \in DOMAIN c |-> P[c[k] + 1]]
Ori(Q) == IF Len(Q) = 3 THEN Orient2(Q[1], Q[2], Q[3]) ELSE Orient3(Q[1], Q[2], Q[3], Q[4])
Qual(Q) ==
  LET A == DistSq(Q[1], Q[2])  B == DistSq(Q[2], Q[3])  C == DistSq(Q[1], Q[3])
      D == Abs(Ori(Q))
      M == Isqrt(A * B * C * 4096)
      N == Isqrt(A * 4096) + Isqrt(B * 4096) + Isqrt(C * 4096)
  IN IF D = 0 THEN 0 ELSE (250 * 4 * D * D * 4096) \div (M * N)

(* cells that touch the boundary; the boundary are the faces of one cell *)
Faces(c) == LET S == Range(c) IN {S \ {v} : v \in S}
BoundaryVerts(T) ==
  LET F == UNION {Faces(T[k]) : k \in DOMAIN T}
      C == TLCEval([k \in DOMAIN T |-> Range(T[k])])
  IN UNION {f \in F : Cardinality({k \in DOMAIN T : f \subseteq C[k]}) = 1}
Touching(T) == LET B == BoundaryVerts(T) IN {k \in DOMAIN T : Range(T[k]) \cap B # {}}

(* three (four) times the centroid of cell a against cell b scaled likewise *)
Scaled(Q, n) == [k \in DOMAIN Q |-> [d \in DOMAIN Q[k] |-> n * Q[k][d]]]
RECURSIVE SumQ(_, _, _)
SumQ(Q, d, n) == IF n = 0 THEN 0 ELSE Q[n][d] + SumQ(Q, d, n - 1)
Cen(Q) == [d \in DOMAIN Q[1] |-> SumQ(Q, d, Len(Q))]
InsideOf(Q, x) == LET s == Sgn(Ori(Q)) IN \A k \in DOMAIN Q : s * Sgn(Ori([Q EXCEPT ![k] = x])) > 0
OutsideOf(Q, x) == LET s == Sgn(Ori(Q)) IN \E k \in DOMAIN Q : s * Sgn(Ori([Q EXCEPT ![k] = x])) < 0
Adjacent(T) == {e \in (DOMAIN T) \X (DOMAIN T) : e[1] # e[2] /\ Range(T[e[1]]) \cap Range(T[e[2]]) # {}}
Must(P, T) == {e \in Adjacent(T) : InsideOf(Scaled(Pts(P, T[e[2]]), Len(T[1])), Cen(Pts(P, T[e[1]])))}
May(P, T) == {e \in Adjacent(T) : ~OutsideOf(Scaled(Pts(P, T[e[2]]), Len(T[1])), Cen(Pts(P, T[e[1]])))}

Pos(P, c) == {P[c[k] + 1] : k \in DOMAIN c}
Valid(c) == \A k \in DOMAIN c.t1 : \A m \in DOMAIN c.t1[k] : c.t1[k][m] \in 0..(Len(c.p1) - 1)
After(c) == {Pos(c.p1, c.t1[k]) : k \in DOMAIN c.t1}
Before(c, K) == {Pos(c.P, c.T[k]) : k \in K}
Clean(c) == /\ Valid(c) /\ Distinct(c.p1) /\ Len(c.t1) = Cardinality(After(c))
            /\ Range(c.p1) = UNION After(c)
            /\ \A k \in DOMAIN c.t1 : Ori(Pts(c.p1, c.t1[k])) >= 0

Delete(c) ==
  LET q == TLCEval([k \in DOMAIN c.T |-> Qual(Pts(c.P, c.T[k]))])
      B == Touching(c.T)
      poor == {k \in B : q[k] < c.thr - Margin}
      maybe == {k \in B : q[k] <= c.thr + Margin}
  IN CASE ~Clean(c) -> "the mesh returned is not clean"
       [] After(c) \ Before(c, DOMAIN c.T) # {} -> "a cell that was not there"
       [] Before(c, poor) \cap After(c) # {} -> "a poor boundary cell is kept"
       [] Before(c, DOMAIN c.T \ maybe) \ After(c) # {} -> "a good or an interior cell is deleted"
       [] OTHER -> "ok"

Overlap(c) ==
  LET got == {<<c.pairs[k][1] + 1, c.pairs[k][2] + 1>> : k \in DOMAIN c.pairs}
  IN CASE Must(c.P, c.T) \ got # {} -> "an overlap is missed"
       [] got \ May(c.P, c.T) # {} -> "cells that do not overlap are reported"
       [] OTHER -> "ok"

Linter(c) ==
  LET pairs == Must(c.P, c.T)
      maypairs == May(c.P, c.T)
      q == TLCEval([k \in DOMAIN c.T |-> Qual(Pts(c.P, c.T[k]))])
      clear(e) == Abs(q[e[1]] - q[e[2]]) > 2 * Margin
      worse(e) == IF q[e[1]] < q[e[2]] THEN e[1] ELSE e[2]
      \* every pair is clear: the cells that remain after the first step are known
      known == pairs = maypairs /\ \A e \in pairs : clear(e)
      left == DOMAIN c.T \ {worse(e) : e \in pairs}
      leftT == LET s == SetToSeq(left) IN [k \in DOMAIN s |-> c.T[s[k]]]
      leftI == LET s == SetToSeq(left) IN s
      B == {leftI[k] : k \in Touching(leftT)}
      inpair == {e[1] : e \in maypairs} \cup {e[2] : e \in maypairs}
      q2 == IF c.dim = 2 THEN c.thr ELSE -1000
  IN CASE ~Clean(c) -> "the mesh returned is not clean"
       [] After(c) \ Before(c, DOMAIN c.T) # {} -> "a cell that was not there"
       [] Must(c.p1, c.t1) # {} -> "overlapping cells remain"
       [] c.dim = 3 /\ Before(c, DOMAIN c.T \ inpair) \ After(c) # {} -> "a cell that overlaps no other is deleted"
       [] c.dim = 3 /\ Cardinality(Before(c, DOMAIN c.T) \ After(c)) > Cardinality(maypairs) -> "more than one cell per pair is deleted"
       [] c.dim = 2 /\ known /\ \E k \in DOMAIN c.T \ left : Pos(c.P, c.T[k]) \in After(c) -> "the worse cell of a pair is kept"
       [] c.dim = 2 /\ known /\ Before(c, {k \in B : q[k] < q2 - Margin}) \cap After(c) # {} -> "a poor boundary cell is kept"
       [] c.dim = 2 /\ known /\ Before(c, left \ {k \in B : q[k] <= q2 + Margin}) \ After(c) # {} -> "a good cell is deleted"
       [] OTHER -> "ok"

Verdict(c) == CASE c.kind = "delete" -> Delete(c) [] c.kind = "overlap" -> Overlap(c) [] OTHER -> Linter(c)
Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
