------------------------------- MODULE Pipeline -------------------------------
(* From a velocity model to a mesh: the mesh of the rectangle or box of the model, with the size function made from the
   model, fills the model and its extension, and its edges have the lengths that the velocities ask for.
   Case: [dim, V, G, n, pad, num, den, cap, Q, T, E, abs]
     V      velocities (m/s) at the nodes of the model, the first axis (depth) varying slowest, at the spacing G
     n      numbers of nodes along the axes
     pad    width of the extension (at the bottom and at all sides, not at the top)
     num, den  desired length for a velocity v: v * num / den (wavelength divided by the number of cells)
     cap    the largest allowed length
     Q, T   vertices relative to the lower corner of the model, cells (1..);  E  all edges
     abs    the density is that of the lattice of the minimal length where the desired one is minimal (r0m_is_h0)
   Positions are in 1/100, lengths in 1/1000 of the minimal edge length. *)
EXTENDS Geom, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
S == INSTANCE Sizes

RECURSIVE Prod(_, _)
Prod(n, k) == IF k > Len(n) THEN 1 ELSE n[k] * Prod(n, k + 1)
\* the node with indices k (from 0)
RECURSIVE At(_, _, _)
At(n, k, d) == IF d > Len(n) THEN 0 ELSE k[d] * Prod(n, d + 1) + At(n, k, d + 1)

\* desired length at a node: the wavelength per cells, within the limits
Node(c, k) == MinI(MaxI((c.V[1 + At(c.n, k, 1)] * c.num) \div c.den, 1000), c.cap)
\* multilinear in the cell; the extension continues the values at the sides of the model
Clamp(c, x) == [d \in 1..c.dim |-> MaxI(0, MinI(x[d], c.G * (c.n[d] - 1)))]
RECURSIVE Lin(_, _, _, _)
Lin(c, x, k, d) ==
  IF d > c.dim THEN Node(c, k)
  ELSE LET m == MinI(x[d] \div c.G, c.n[d] - 2)
           r == x[d] - m * c.G
       IN (Lin(c, x, [k EXCEPT ![d] = m], d + 1) * (c.G - r) + Lin(c, x, [k EXCEPT ![d] = m + 1], d + 1) * r) \div c.G
Desired(c, x) == Lin(c, Clamp(c, x), [d \in 1..c.dim |-> 0], 1)

Low(c, d) == -c.pad
High(c, d) == c.G * (c.n[d] - 1) + (IF d = 1 THEN 0 ELSE c.pad)
Tol == 15
\* vertices of 3D meshes may be somewhat off the boundary (see Conform)
Off(c) == IF c.dim = 2 THEN Tol ELSE 170

RECURSIVE Area2(_, _, _)
Area2(c, a, b) == IF a > b THEN 0 ELSE IF a = b THEN Orient2(c.Q[c.T[a][1]], c.Q[c.T[a][2]], c.Q[c.T[a][3]])
                  ELSE LET m == (a + b) \div 2 IN Area2(c, a, m) + Area2(c, m + 1, b)

Verdict(c) ==
  LET ext(d) == {c.Q[k][d] : k \in DOMAIN c.Q}
      E == TLCEval([k \in DOMAIN c.E |-> LET a == c.E[k][1]  b == c.E[k][2]
                                         IN <<a, b, Desired(c, [d \in 1..c.dim |-> (c.Q[a][d] + c.Q[b][d]) \div 2])>>])
      nodes == {Node(c, k) : k \in {f \in [1..c.dim -> 0..20] : \A d \in 1..c.dim : f[d] < c.n[d]}}
      least == IF c.abs THEN 1000 ELSE CHOOSE x \in nodes : \A y \in nodes : x <= y
  IN CASE \E d \in 1..c.dim : \E x \in ext(d) : x < Low(c, d) - Off(c) \/ x > High(c, d) + Off(c) -> "the mesh leaves the model and its extension"
       [] \E d \in 1..c.dim : (\A x \in ext(d) : x > Low(c, d) + Tol) \/ (\A x \in ext(d) : x < High(c, d) - Tol) -> "the mesh does not reach a side of the model or its extension"
       [] c.dim = 2 /\ Abs(Area2(c, 1, Len(c.T)) - 2 * (High(c, 1) - Low(c, 1)) * (High(c, 2) - Low(c, 2)))
                         > (2 * (High(c, 1) - Low(c, 1)) * (High(c, 2) - Low(c, 2))) \div 50 -> "the mesh does not fill the model and its extension"
       [] OTHER -> S!Verdict([dim |-> c.dim, uniform |-> FALSE, Q |-> c.Q, T |-> c.T, E |-> E, least |-> least])

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
