------------------------------- MODULE Start -------------------------------
(* The points a mesh generation starts from.
   Positions are integers, the least edge length h0 is H = 100 steps; the domain is a tree of shapes in the same steps.
   Case kind "lattice": [dim, tree, fn, box, sbox, geps, user, slab, ref, sizes, r0m, pts, seeds]
     fn          whether the domain is given as a function
     box, sbox   limits of the box of the domain and of that of the size function (see Shapes)
     geps        threshold of being outside, in steps
     user        points fixed by the user
     slab,sizes  the size function: piecewise constant in slabs of that width along the first axis, in tenths of h0; the slabs take the
                 sizes in turn, from ref on
     r0m         whether the user asked for a density relative to h0 (not to the least size in the domain)
     pts         the points of the first triangulation
     seeds       number of points that differ if another seed is used
   Case kind "points": [given, pts]: the user gave the points.

   The domain is covered by a lattice with the spacing h0 along all axes, every second layer of which across the first axis is moved
   by half a spacing along the others.  A point is kept with the probability (m / s)^dim, where s
   is the size there and m the least one; fixed points replace those within half a spacing. *)
EXTENDS Geom, Within, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
H == 100

Low(c, d) == IF c.sbox = <<>> THEN c.box[2 * d - 1] ELSE MinI(c.box[2 * d - 1], c.sbox[2 * d - 1])
High(c, d) == IF c.sbox = <<>> THEN c.box[2 * d] ELSE MaxI(c.box[2 * d], c.sbox[2 * d])
(* the lattice around the domain *)
Limits(c) == [d \in 1..c.dim |-> (High(c, d) - Low(c, d)) \div H + 2]
Node(c, n) == [d \in 1..c.dim |-> Low(c, d) + H * n[d] + (IF d > 1 /\ n[1] % 2 = 1 THEN H \div 2 ELSE 0)]
Lattice(c) == LET L == Limits(c)
              IN IF c.dim = 2 THEN {Node(c, <<a, b>>) : a \in 0..L[1], b \in 0..L[2]}
                 ELSE {Node(c, <<a, b, e>>) : a \in 0..L[1], b \in 0..L[2], e \in 0..L[3]}

RECURSIVE Boxes(_)
Boxes(t) == IF t.kind \in {"union", "intersection", "difference"} THEN UNION {Boxes(t.of[k]) : k \in DOMAIN t.of}
            ELSE IF t.kind = "box" THEN {t.a} ELSE {}
Corners(a, d) == {p \in [1..d -> Range(a)] : \A n \in 1..d : p[n] \in {a[2 * n - 1], a[2 * n]}}

Size(c, p) == c.sizes[(((p[1] - c.ref) \div c.slab) % Len(c.sizes)) + 1]
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

FromLattice(c) ==
  LET P == TLCEval(Range(c.pts))
      L == TLCEval(Lattice(c))
      In == TLCEval({p \in L : Within(c.tree, p, c.geps - 3)})
      May == TLCEval({p \in L : Within(c.tree, p, c.geps + 3)})
      Cand == Range(c.user) \cup UNION {Corners(a, c.dim) : a \in Boxes(c.tree)}
      F == TLCEval(Cand \cap P)
      Close(p) == \E f \in F : DistSq(p, f) < 2400
      Apart(p) == \A f \in F : DistSq(p, f) > 2600
      R == TLCEval({p \in In : Apart(p)})
      least == Min({Size(c, p) : p \in In})
      m == IF ~c.r0m THEN least ELSE IF 11 < least THEN 11 ELSE 10
      Chance(s) == IF s <= m THEN 1000 ELSE (1000 * Pow(m, c.dim)) \div Pow(s, c.dim)
      Off(s) == LET A == {p \in R : Size(c, p) = s}
                    N == Cardinality(A)
                    n == Cardinality(A \cap P)
                    q == Chance(s)
                IN Abs(1000 * n - N * q) > 5 * ISqrt(N * q * (1000 - q)) + 2000 + N
      unsure == \E p \in May \ In : Size(c, p) < least
  IN CASE ~(Range(c.user) \subseteq P) -> "a fixed point is missing"
       [] ~(P \subseteq May \cup Cand) -> IF P \subseteq L \cup Cand THEN "a point outside of the domain" ELSE "a point that is not of the lattice"
       [] \E p \in P \ F : Close(p) -> "a point on top of a fixed one"
       [] unsure -> "ok"
       [] \E p \in R \ P : Size(c, p) <= m -> "a point of the lattice is missing where the size is least"
       [] \E s \in Range(c.sizes) : Off(s) -> "the density does not follow the size function"
       [] c.seeds = 0 /\ Cardinality({p \in R : Chance(Size(c, p)) \in 100..900}) > 60 -> "the seed makes no difference"
       [] OTHER -> "ok"

FromUser(c) == IF Range(c.pts) = Range(c.given) THEN "ok" ELSE "not the points that the user gave"

Verdict(c) == IF c.kind = "points" THEN FromUser(c) ELSE FromLattice([c EXCEPT !.tree = Padded(c.tree, IF c.fn THEN <<>> ELSE c.sbox)])
Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
