------------------------------ MODULE Shapes ------------------------------
(* The solid shapes, by exact integer arithmetic on lattice points.
   A shape is a sequence: its kind followed by integer parameters; Sign is -1 inside, 0 on the boundary, 1 outside. *)
EXTENDS Integers, Sequences

SgnS(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
MaxS(a, b) == IF a > b THEN a ELSE b
MinS(a, b) == IF a < b THEN a ELSE b
AbsS(x) == IF x < 0 THEN -x ELSE x
Sq(x) == x * x

(* signed value of a box with limits lo1,hi1,lo2,hi2,...: exact, also as a number *)
RECURSIVE BoxVal(_, _, _)
BoxVal(lim, p, n) ==
  LET v == MaxS(lim[2 * n - 1] - p[n], p[n] - lim[2 * n])
  IN IF n = 1 THEN v ELSE MaxS(v, BoxVal(lim, p, n - 1))

(* the domain that is meshed with a size function that is defined in the box s (<<>>: in no particular box): a box is padded so that
   it contains s as well, other domains stay what they are *)
Padded(t, s) ==
  IF s = <<>> \/ t.kind # "box" THEN t
  ELSE [kind |-> "box", a |-> [n \in DOMAIN t.a |-> IF n % 2 = 1 THEN MinS(t.a[n], s[n]) ELSE MaxS(t.a[n], s[n])]]

BallSign(c, r, p) ==
  LET RECURSIVE S(_)
      S(n) == IF n = 0 THEN 0 ELSE Sq(p[n] - c[n]) + S(n - 1)
  IN SgnS(S(Len(p)) - r * r)

(* torus around the y axis: outer radius a, radius b of the tube:  (s - a)^2 + y^2 - b^2  with s^2 = x^2 + z^2 *)
TorusSign(a, b, p) ==
  LET s2 == Sq(p[1]) + Sq(p[3])
      L == s2 + a * a + Sq(p[2]) - b * b      \* compared with 2 a s
  IN IF L < 0 THEN -1
     ELSE SgnS(L * L - 4 * a * a * s2)

(* cylinder around the y axis of height h2/2... : half height h, radius r *)
CylSign(h, r, p) ==
  LET f == SgnS(Sq(p[1]) + Sq(p[3]) - r * r)
      g == SgnS(AbsS(p[2]) - h)
  IN MaxS(f, g)

(* prism with triangular base of inradius b/2 (twice the y coordinate against b), half height h along z *)
PrismSign(b, h, p) ==
  LET \* |x| sqrt(3) + y - b
      e == b - p[2]
      f == IF e < 0 THEN 1 ELSE SgnS(3 * Sq(p[1]) - e * e)
      g == SgnS(-2 * p[2] - b)
  IN MaxS(MaxS(f, g), SgnS(AbsS(p[3]) - h))

ShapeSign(s, p) ==
  CASE s.kind = "box" -> SgnS(BoxVal(s.a, p, Len(p)))
    [] s.kind = "ball" -> BallSign(SubSeq(s.a, 1, Len(p)), s.a[Len(p) + 1], p)
    [] s.kind = "torus" -> TorusSign(s.a[1], s.a[2], p)
    [] s.kind = "cylinder" -> CylSign(s.a[1], s.a[2], p)
    [] s.kind = "prism" -> PrismSign(s.a[1], s.a[2], p)

(* boolean combinations: a node is a shape or [kind, of] *)
RECURSIVE FoldS(_, _, _)
FoldS(Op(_, _), s, n) == IF n = 1 THEN s[1] ELSE Op(FoldS(Op, s, n - 1), s[n])
RECURSIVE TreeSign(_, _)
TreeSign(t, p) ==
  CASE t.kind = "union" -> LET v == [k \in DOMAIN t.of |-> TreeSign(t.of[k], p)] IN FoldS(MinS, v, Len(v))
    [] t.kind = "intersection" -> LET v == [k \in DOMAIN t.of |-> TreeSign(t.of[k], p)] IN FoldS(MaxS, v, Len(v))
    [] t.kind = "difference" ->
         LET v == [k \in DOMAIN t.of |-> IF k = 1 THEN TreeSign(t.of[k], p) ELSE -TreeSign(t.of[k], p)]
         IN FoldS(MaxS, v, Len(v))
    [] OTHER -> ShapeSign(t, p)
=============================================================================
