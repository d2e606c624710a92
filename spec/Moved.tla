------------------------------- MODULE Moved -------------------------------
(* A primitive shape that is stretched along a vector, rotated and translated.
   Case: [dim, shape, stretch, alpha, rot, tr, q, X, sign, diff, base, bbox, corners]
     stretch  vector v with integer length alpha (<<>>: none); stretches by alpha along v
     rot      cosine and sine in fifths of the rotations about the axes (2D: one)
     tr       translation (integers)
     q, X     lattice points and what they are moved to, in 1/Den
     sign     sign of the moved shape's value at X; diff: its difference to the original's value at q, in 1e-9
     base     of the original at q: the sign, and val64 its value in 1/64
     bbox     reported box of the moved shape in 1/Den (rounded outwards), corners reported corners in 1/Den (rounded) *)
EXTENDS Shapes, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

RECURSIVE DotN(_, _, _)
DotN(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + DotN(a, b, n - 1)

(* x + (alpha - 1) (x.v) v / alpha^2, in 1/25 (alpha = 5 or a multiple of an axis) *)
Stretch(c, q) ==
  IF c.stretch = <<>> THEN [d \in 1..c.dim |-> 25 * q[d]]
  ELSE LET s == DotN(q, c.stretch, c.dim)
       IN [d \in 1..c.dim |-> 25 * q[d] + ((c.alpha - 1) * 25 * s * c.stretch[d]) \div (c.alpha * c.alpha)]
Exact(c, q) == c.stretch = <<>> \/ \A d \in 1..c.dim : ((c.alpha - 1) * 25 * DotN(q, c.stretch, c.dim) * c.stretch[d]) % (c.alpha * c.alpha) = 0

RX(r, p) == <<5 * p[1], r[1] * p[2] - r[2] * p[3], r[2] * p[2] + r[1] * p[3]>>
RY(r, p) == <<r[1] * p[1] + r[2] * p[3], 5 * p[2], r[1] * p[3] - r[2] * p[1]>>
RZ(r, p) == <<r[1] * p[1] - r[2] * p[2], r[2] * p[1] + r[1] * p[2], 5 * p[3]>>
Rotate(c, p) == IF c.dim = 2 THEN <<c.rot[1][1] * p[1] - c.rot[1][2] * p[2], c.rot[1][2] * p[1] + c.rot[1][1] * p[2]>>
                ELSE RX(c.rot[1], RY(c.rot[2], RZ(c.rot[3], p)))
Den(c) == IF c.dim = 2 THEN 125 ELSE 3125
Move(c, q) == LET y == Rotate(c, Stretch(c, q)) IN [d \in 1..c.dim |-> y[d] + Den(c) * c.tr[d]]

IsBox(c) == c.shape.kind = "box"
BoxCorners(c) == IF c.dim = 2 THEN {<<c.shape.a[x], c.shape.a[2 + y]>> : x \in {1, 2}, y \in {1, 2}}
                 ELSE {<<c.shape.a[x], c.shape.a[2 + y], c.shape.a[4 + z]>> : x \in {1, 2}, y \in {1, 2}, z \in {1, 2}}
Near(a, b) == \A d \in DOMAIN a : AbsS(a[d] - b[d]) <= 1

Verdict(c) ==
  LET S == [k \in DOMAIN c.q |-> ShapeSign(c.shape, c.q[k])]
  IN CASE \E k \in DOMAIN c.q : ~Exact(c, c.q[k]) \/ Move(c, c.q[k]) # c.X[k] -> "MACHINERY: the harness moves points wrongly"
       [] \E k \in DOMAIN c.q : S[k] # c.base[k] -> "the primitive is not the documented shape"
       [] IsBox(c) /\ \E k \in DOMAIN c.q : AbsS(c.val64[k] - 64 * BoxVal(c.shape.a, c.q[k], c.dim)) > 1 -> "the value of the box is not the distance along an axis"
       [] c.shape.kind = "ball" /\ \E k \in DOMAIN c.q : c.ballerr[k] > 1 -> "the value of the ball is not the distance"
       [] \E k \in DOMAIN c.q : S[k] # c.sign[k] -> "the moved shape is not the shape moved"
       [] \E k \in DOMAIN c.q : c.diff[k] > 1000 -> "the moved shape has other values than the original"
       [] \E k \in DOMAIN c.q : S[k] <= 0 /\ \E d \in 1..c.dim : c.X[k][d] < c.bbox[2 * d - 1] \/ c.X[k][d] > c.bbox[2 * d] ->
            "the bounding box does not contain the shape"
       [] IsBox(c) /\ LET M == {Move(c, x) : x \in BoxCorners(c)}
                      IN \E d \in 1..c.dim :
                           \/ AbsS(c.bbox[2 * d - 1] - (CHOOSE v \in {m[d] : m \in M} : \A w \in {m[d] : m \in M} : v <= w)) > 2
                           \/ AbsS(c.bbox[2 * d] - (CHOOSE v \in {m[d] : m \in M} : \A w \in {m[d] : m \in M} : v >= w)) > 2 ->
            "the bounding box is not that of the moved box"
       [] IsBox(c) /\ LET M == {Move(c, x) : x \in BoxCorners(c)}
                      IN \/ \E m \in M : \A k \in DOMAIN c.corners : ~Near(c.corners[k], m)
                         \/ \E k \in DOMAIN c.corners : \A m \in M : ~Near(c.corners[k], m) -> "the corners are not the moved corners"
       [] ~IsBox(c) /\ c.corners # <<>> -> "a shape without corners reports some"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
