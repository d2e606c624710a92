------------------------------ MODULE Within ------------------------------
(* Signed distances of the solid shapes and their combinations against a bound, in integers. *)
EXTENDS Shapes

(* the greatest integer with a square of at most n < 2^31 *)
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)
SumSq(p, c) == LET RECURSIVE S(_)
                   S(n) == IF n = 0 THEN 0 ELSE Sq(p[n] - c[n]) + S(n - 1)
               IN S(Len(p))

(* is the signed distance of p at most e?  (the distances of a ball, a torus and the mantle of a cylinder are
   rounded down by less than one step) *)
WithinShape(s, p, e) ==
  CASE s.kind = "box" -> BoxVal(s.a, p, Len(p)) <= e
    [] s.kind = "ball" -> LET r == s.a[Len(p) + 1] + e IN r >= 0 /\ SumSq(p, SubSeq(s.a, 1, Len(p))) <= r * r
    [] s.kind = "torus" -> LET k == ISqrt(Sq(p[1]) + Sq(p[3])) - s.a[1] IN ISqrt(k * k + Sq(p[2])) - s.a[2] <= e
    [] s.kind = "cylinder" -> ISqrt(Sq(p[1]) + Sq(p[3])) - s.a[2] <= e /\ AbsS(p[2]) - s.a[1] <= e
    [] s.kind = "prism" -> LET m == s.a[1] - p[2] + 2 * e
                           IN m >= 0 /\ ISqrt(3 * Sq(p[1])) <= m /\ -2 * p[2] - s.a[1] <= 2 * e /\ AbsS(p[3]) - s.a[2] <= e
RECURSIVE Within(_, _, _)
Within(t, p, e) ==
  CASE t.kind = "union" -> \E k \in DOMAIN t.of : Within(t.of[k], p, e)
    [] t.kind = "intersection" -> \A k \in DOMAIN t.of : Within(t.of[k], p, e)
    [] t.kind = "difference" -> Within(t.of[1], p, e) /\ \A k \in 2..Len(t.of) : ~Within(t.of[k], p, -e - 1)
    [] OTHER -> WithinShape(t, p, e)
=============================================================================
