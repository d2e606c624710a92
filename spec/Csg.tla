-------------------------------- MODULE Csg --------------------------------
(* Boolean combinations against set algebra.
   kind "tree":   [tree, pts, sign, bbox, den]: sign of the value of the code at every point; bbox <<lo, hi, ...>>
                  in 1/den of the lattice
   kind "smooth": [op, k, boxes, pts, val]: combination of boxes with smoothness k; values in 1/64 (rounded)
   kind "repeat": [inner, per, box, pts, sign]: periodic repetition, even periods *)
EXTENDS Shapes, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

Tree(c) ==
  LET S == [k \in DOMAIN c.pts |-> TreeSign(c.tree, c.pts[k])]
      dim == Len(c.pts[1])
  IN CASE Len(c.sign) # Len(c.pts) -> "number of values"
       [] \E k \in DOMAIN S : S[k] = -1 /\ c.sign[k] # -1 -> "a point inside is not inside"
       [] \E k \in DOMAIN S : S[k] = 1 /\ c.sign[k] # 1 -> "a point outside is not outside"
       [] \E k \in DOMAIN S : S[k] = 0 /\ c.sign[k] # 0 -> "a point on the boundary is not on the boundary"
       [] \E k \in DOMAIN S : S[k] <= 0 /\ \E d \in 1..dim :
             c.pts[k][d] * c.den < c.bbox[2 * d - 1] \/ c.pts[k][d] * c.den > c.bbox[2 * d] ->
             "the bounding box does not contain the shape"
       [] OTHER -> "ok"

Val(c, j, p) == BoxVal(c.boxes[j], p, Len(p))
Smooth(c) ==
  LET n == Len(c.boxes)
      V(p) == [j \in 1..n |-> IF c.op = "difference" /\ j > 1 THEN -Val(c, j, p) ELSE Val(c, j, p)]
      plain(p) == IF c.op = "union" THEN FoldS(MinS, V(p), n) ELSE FoldS(MaxS, V(p), n)
      s == IF c.op = "union" THEN -1 ELSE 1       \* the direction in which smoothness may move the value
      more(m) == s * (c.val[m] - 64 * plain(c.pts[m]))
      far(p) == \A j, l \in 1..n : j # l => AbsS(V(p)[j] - V(p)[l]) >= c.k
      \* the effect is bounded by k/4 per step, one after the other
      bound == 16 * c.k * (n - 1)
  IN CASE \E m \in DOMAIN c.pts : more(m) < -1 -> "smoothness removes from a union or adds to another"
       [] \E m \in DOMAIN c.pts : more(m) > bound + 1 -> "smoothness changes the shape too much"
       [] n = 2 /\ \E m \in DOMAIN c.pts : far(c.pts[m]) /\ AbsS(more(m)) > 1 -> "smoothness acts far from where boundaries meet"
       [] n = 2 /\ c.pts # <<>> /\ \E m \in DOMAIN c.pts :
             V(c.pts[m])[1] = V(c.pts[m])[2] /\ more(m) <= 0 -> "smoothness does not act where boundaries meet"
       [] OTHER -> "ok"

(* image of x in the cell [-per/2, per/2): coordinates and period in the same integer units, period even *)
Image(x, per) == ((x + per \div 2) % per) - per \div 2
Repeat(c) ==
  LET Img(p) == [d \in DOMAIN p |-> Image(p[d], c.per[d])]
      S(p) == MaxS(ShapeSign(c.inner, Img(p)), SgnS(BoxVal(c.box, p, Len(p))))
      \* the border of the cell may belong to either side
      Border(p) == \E d \in DOMAIN p : Img(p)[d] = -(c.per[d] \div 2)
  IN CASE \E k \in DOMAIN c.pts : ~Border(c.pts[k]) /\ c.sign[k] # S(c.pts[k]) -> "a repeated shape is not where its images are"
       [] OTHER -> "ok"

Verdict(c) == CASE c.kind = "tree" -> Tree(c) [] c.kind = "smooth" -> Smooth(c) [] OTHER -> Repeat(c)
Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
