-------------------------------- MODULE Sizes --------------------------------
(* The sizes and shapes of the cells of a generated mesh follow the size function.
   Case: [dim, uniform, Q, T, E, least]
     Q, T     vertices in 1/100 of h0, cells (1..)
     uniform  whether the desired length is the same everywhere
     E        all edges as <<a, b, desired length at the middle>> in 1/1000 of h0
     least    the least desired length in the domain (the density of the initial points is relative to it), in 1/1000 of h0
   The initial points have the density of a lattice with spacing h0 where the desired length is least and are thinned out
   elsewhere, so that an edge has, on average, a fixed multiple of the desired length everywhere. *)
EXTENDS Geom, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)
RECURSIVE SumTree(_, _, _)
SumTree(f, a, b) == IF a > b THEN 0 ELSE IF a = b THEN f[a]
                    ELSE LET m == (a + b) \div 2 IN SumTree(f, a, m) + SumTree(f, m + 1, b)
Sum(f) == SumTree(f, 1, Len(f))
Count(f, Test(_)) == Cardinality({k \in DOMAIN f : Test(f[k])})

(* least and greatest mean (the latter for n edges: points are dropped at random), spread in per mille of the mean, short and
   long edges per mille, mean quality and poor cells per mille (2D) *)
Bounds(c, n) ==
  LET r == ISqrt(n)
  IN CASE c.dim = 2 /\ c.uniform -> [lo |-> 1030, hi |-> 1190, dev |-> 150, short |-> 6, long |-> 12, qual |-> 930, poor |-> 8]
       [] c.dim = 2 /\ ~c.uniform -> [lo |-> 860, hi |-> 1200 + 7000 \div r, dev |-> 220, short |-> 6, long |-> 20, qual |-> 860, poor |-> 10]
       [] c.dim = 3 /\ c.uniform -> [lo |-> 1150, hi |-> 1420, dev |-> 230, short |-> 8, long |-> 20, qual |-> 0, poor |-> 0]
       [] OTHER -> [lo |-> 1000, hi |-> 1350 + 14000 \div r, dev |-> 260, short |-> 8, long |-> 20, qual |-> 0, poor |-> 0]

Verdict(c) ==
  LET n == Len(c.E)
      B == Bounds(c, n)
      \* the length of every edge relative to the desired one
      R == TLCEval([k \in 1..n |-> LET e == c.E[k]
                                       s == DistSq(c.Q[e[1]], c.Q[e[2]])
                                       L == IF s < 20000000 THEN ISqrt(100 * s) ELSE 10 * ISqrt(s)
                                   IN (MinI(L, 60000) * c.least) \div e[3]])
      Mean == Sum(R) \div n
      Dev2 == Sum(TLCEval([k \in 1..n |-> LET x == MinI(Abs(R[k] - Mean), 5000) \div 10 IN x * x])) \div n
      Short == Count(R, LAMBDA x : 100 * x < 45 * Mean)
      Long == Count(R, LAMBDA x : 100 * x > (IF c.dim = 2 THEN 150 ELSE 170) * Mean)
      \* 1000 times 4 sqrt(3) area / sum of squared lengths
      Qual == TLCEval([k \in DOMAIN c.T |-> LET p == c.Q[c.T[k][1]]  q == c.Q[c.T[k][2]]  r == c.Q[c.T[k][3]]
                                        s == DistSq(p, q) + DistSq(q, r) + DistSq(r, p)
                                    IN IF s = 0 THEN 0 ELSE (346 * Orient2(p, q, r)) \div (s \div 10 + 1)])
  IN CASE n < 100 -> "ok"
       [] Mean < B.lo -> "the edges are too short"
       [] Mean > B.hi -> "the edges are too long"
       [] Dev2 * 100 > ((B.dev * Mean) \div 1000) * ((B.dev * Mean) \div 1000) -> "the lengths of the edges don't follow the size function"
       [] Short * 1000 > B.short * n + 3000 -> "too many short edges"
       [] Long * 1000 > B.long * n + 3000 -> "too many long edges"
       [] c.dim = 2 /\ Sum(Qual) < B.qual * Len(c.T) -> "the cells are badly shaped"
       [] c.dim = 2 /\ 1000 * Count(Qual, LAMBDA q : q < 400) > B.poor * Len(c.T) + 2000 -> "too many badly shaped cells"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
