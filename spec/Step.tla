-------------------------------- MODULE Step --------------------------------
(* One iteration of mesh generation: the balance of forces.
   Positions are integers, h0 = 1000 steps; the domain is a tree of boxes and balls in the same steps (module Shapes).
   Case: [dim, V, T, E, dt, geps, tree, levels, fixed, keep, own, lo, hi, next]
     V, T    vertices and cells (1..) of the triangulation;  E: all its edges as <<a, b, desired length at the middle>>
     dt      100 * delta_t;  geps: threshold of the removal of cells outside, in steps
     levels  subdomains;  fixed  positions fixed by the user; keep: whether the corners of boxes are fixed as well
     own     number of vertices of V that belong to the rank (the others are ghosts)
     lo, hi  extent of the block (serial: beyond everything)
     next    positions with which the next iteration starts
   Every bar (edge of a cell of the domain) pushes its ends apart if it is shorter than its desired length, which is
   scaled so that the bars are 1 + 0.4 / 2^(dim - 1) times too short on average.  A point moves by delta_t times the sum
   of the forces, and is brought back to the boundary if that takes it out of the domain. *)
EXTENDS Geom, Shapes, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == LET r == Root(n, 0, 46341) IN IF n - r * r > r THEN r + 1 ELSE r       \* rounded
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
RECURSIVE SumTree(_, _, _)                                                        \* the same, without deep recursion
SumTree(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a]
                    ELSE LET m == (a + b) \div 2 IN SumTree(f, a, m) + SumTree(f, m + 1, b)
RoundDiv(a, b) == (2 * a + b) \div (2 * b)
Trunc(a, b) == IF a >= 0 THEN RoundDiv(a, b) ELSE -RoundDiv(-a, b)

(* ---- the signed distance of a domain and where its gradient comes from: [v, g, sure]; g: <<axis, side>> of a box or the
   ball; sure: no other part is about as close *)
SumSq(p, c) == LET RECURSIVE S(_)
                   S(n) == IF n = 0 THEN 0 ELSE Sq(p[n] - c[n]) + S(n - 1)
               IN S(Len(p))
Near == 25
RECURSIVE Best(_, _)         \* the greatest of a sequence of such values
Best(s, n) ==
  IF n = 1 THEN s[1]
  ELSE LET a == Best(s, n - 1)  b == s[n]
           m == IF a.v >= b.v THEN a ELSE b
       IN [m EXCEPT !.sure = @ /\ AbsS(a.v - b.v) > Near]
Flip(x) == [x EXCEPT !.v = -@]
Leaf(t, p) ==
  IF t.kind = "box"
  THEN Best([k \in 1..2 * Len(p) |-> LET d == (k + 1) \div 2 IN
              [v |-> IF k % 2 = 1 THEN t.a[k] - p[d] ELSE p[d] - t.a[k], g |-> <<d, t.a[k]>>, sure |-> TRUE, ball |-> FALSE]], 2 * Len(p))
  ELSE LET c == SubSeq(t.a, 1, Len(p))  r == ISqrt(SumSq(p, c))
       IN [v |-> r - t.a[Len(p) + 1], g |-> t.a, sure |-> r > 100, ball |-> TRUE]
RECURSIVE Value(_, _)
Value(t, p) ==
  CASE t.kind = "union" -> Flip(Best([k \in DOMAIN t.of |-> Flip(Value(t.of[k], p))], Len(t.of)))
    [] t.kind = "intersection" -> Best([k \in DOMAIN t.of |-> Value(t.of[k], p)], Len(t.of))
    [] t.kind = "difference" -> Best([k \in DOMAIN t.of |-> IF k = 1 THEN Value(t.of[k], p) ELSE Flip(Value(t.of[k], p))], Len(t.of))
    [] OTHER -> Leaf(t, p)
(* the point of the nearest part's boundary *)
Onto(x, p) ==
  IF ~x.ball THEN [p EXCEPT ![x.g[1]] = x.g[2]]
  ELSE LET c == SubSeq(x.g, 1, Len(p))  r == ISqrt(SumSq(p, c))
       IN [d \in DOMAIN p |-> c[d] + Trunc((p[d] - c[d]) * x.g[Len(p) + 1], r)]

RECURSIVE Boxes(_)
Boxes(t) == IF t.kind \in {"union", "intersection", "difference"} THEN UNION {Boxes(t.of[k]) : k \in DOMAIN t.of}
            ELSE IF t.kind = "box" THEN {t.a} ELSE {}
Corners(t, d) == {p \in UNION {[1..d -> Range(a)] : a \in Boxes(t)} :
                    /\ \E a \in Boxes(t) : \A n \in 1..d : p[n] \in {a[2 * n - 1], a[2 * n]}
                    /\ TreeSign(t, p) = 0}

Tol(c) == IF c.dim = 2 THEN 12 ELSE 20
Close(p, q, e) == \A d \in DOMAIN p : Abs(p[d] - q[d]) <= e

(* where a point may go, starting at e: the set of positions, {} for "not decided" *)
RECURSIVE Projected(_, _, _)
Projected(c, k, S) ==          \* levels k, k + 1, ...; 1: the domain
  IF k > Len(c.levels) + 1 \/ S = {} THEN S
  ELSE LET t == IF k = 1 THEN c.tree ELSE c.levels[k - 1]
           One(e) == LET x == Value(t, e)
                         far == IF k = 1 THEN 1000000 ELSE 667
                     IN IF x.v < -3 \/ x.v > far + 3 THEN {e}
                        ELSE IF ~x.sure THEN {<<>>}
                        ELSE IF x.v <= 3 \/ x.v >= far - 3 THEN {e, Onto(x, e)} ELSE {Onto(x, e)}
           R == UNION {One(e) : e \in S}
       IN IF <<>> \in R THEN {} ELSE Projected(c, k + 1, R)

Verdict(c) ==
  LET n == Len(c.V)
      Mid(t) == [d \in 1..c.dim |-> RoundDiv(SumTo([k \in 1..c.dim + 1 |-> c.V[t[k]][d]], c.dim + 1), c.dim + 1)]
      Val == TLCEval([k \in DOMAIN c.T |-> Value(c.tree, Mid(c.T[k])).v + c.geps])
      Out(v) == \E d \in 1..c.dim : c.V[v][d] < c.lo[d] \/ c.V[v][d] > c.hi[d]
      Kept == {k \in DOMAIN c.T : Val[k] < 0 /\ ~(\A m \in DOMAIN c.T[k] : Out(c.T[k][m]))}
      Clear == \A k \in DOMAIN c.T : Abs(Val[k]) > 2
      InCell == UNION {{{t[m], t[l]} : m, l \in DOMAIN t} : t \in {c.T[k] : k \in Kept}}
      Bars == SelectSeq(c.E, LAMBDA e : {e[1], e[2]} \in InCell)
      m0 == Len(Bars)
      Vec == TLCEval([k \in 1..m0 |-> Sub(c.V[Bars[k][1]], c.V[Bars[k][2]])])
      L == TLCEval([k \in 1..m0 |-> LET s == NormSq(Vec[k]) IN IF s < 20000000 THEN RoundDiv(ISqrt(100 * s), 10) ELSE ISqrt(s)])
      \* (sum of L^dim / sum of h^dim)^(1/dim) in 1/10000; scaled sums
      Pow(x) == IF c.dim = 2 THEN x * x ELSE LET y == RoundDiv(x, 10) IN y * y * (y \div 4) + (y * y * (y % 4)) \div 4
      A0 == SumTree(TLCEval([k \in 1..m0 |-> Pow(L[k]) \div 16]), 1, m0)
      B0 == SumTree(TLCEval([k \in 1..m0 |-> Pow(Bars[k][3]) \div 16]), 1, m0)
      Shift == IF B0 > 200000000 THEN 16 ELSE 1
      A == A0 \div Shift  B == B0 \div Shift
      RECURSIVE Dec(_, _, _)
      Dec(num, k, acc) == IF k = 0 THEN acc ELSE Dec((num * 10) % B, k - 1, acc * 10 + (num * 10) \div B)
      \* the ratio in 1/10^6, its root in 1/10000
      Ratio == Dec(A % B, 6, A \div B)
      Scale == IF c.dim = 2 THEN 10 * (ISqrt(Ratio)) + Trunc(10 * (Ratio - ISqrt(Ratio) * ISqrt(Ratio)), 2 * ISqrt(Ratio))
               ELSE LET q == CHOOSE q \in 1..1200 : q * q * q <= Ratio /\ (q + 1) * (q + 1) * (q + 1) > Ratio
                    IN 100 * q + (100 * (Ratio - q * q * q)) \div (3 * q * q)
      Mult == IF c.dim = 2 THEN 12 ELSE 11
      Force == TLCEval([k \in 1..m0 |->
                 LET want == (RoundDiv(Bars[k][3] * Mult, 1) * (Scale \div 10)) \div 10000 + (Bars[k][3] * Mult * (Scale % 10)) \div 100000
                     f == want - L[k]
                 IN IF f <= 0 \/ L[k] = 0 THEN [d \in 1..c.dim |-> 0]
                    ELSE [d \in 1..c.dim |-> Trunc(f * Vec[k][d], L[k])]])
      At == TLCEval([v \in 1..n |-> <<SelectSeq([k \in 1..m0 |-> k], LAMBDA k : Bars[k][1] = v),
                                      SelectSeq([k \in 1..m0 |-> k], LAMBDA k : Bars[k][2] = v)>>])
      Sum(v, d) == SumTo([k \in DOMAIN At[v][1] |-> Force[At[v][1][k]][d]], Len(At[v][1]))
                   - SumTo([k \in DOMAIN At[v][2] |-> Force[At[v][2][k]][d]], Len(At[v][2]))
      Held == Range(c.fixed) \cup (IF c.keep THEN Corners(c.tree, c.dim) ELSE {})
      Fix == TLCEval({v \in 1..n : \E q \in Held : Close(c.V[v], q, 1)})
      Free == {v \in 1..c.own : v \notin Fix}
      Move == TLCEval([v \in Free |-> [d \in 1..c.dim |-> c.V[v][d] + Trunc(c.dt * Sum(v, d), 100)]])
      Goal == TLCEval([v \in Free |-> Projected(c, 1, {Move[v]})])
  IN CASE Len(c.next) # c.own -> "points are lost or added"
       [] m0 = 0 \/ ~Clear -> "ok"
       [] \E q \in Held : ~(\E v \in 1..n : Close(c.V[v], q, 1)) -> "a fixed point is not among the points"
       [] \E v \in Fix : ~(\E k \in DOMAIN c.next : Close(c.next[k], c.V[v], 2)) -> "a fixed point moves"
       [] \E v \in Free : Goal[v] # {} /\ ~(\E q \in Goal[v] : \E k \in DOMAIN c.next : Close(c.next[k], q, Tol(c))) ->
            "a point does not move as the forces on it require"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
