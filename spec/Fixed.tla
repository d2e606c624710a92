------------------------------- MODULE Fixed -------------------------------
(* Which points have to be vertices of a generated mesh.
   Case: [dim, tree, h, keep, pts, near, user]
     tree   the domain in steps (module Shapes), h: the edge length in steps
     keep   whether corners have to be kept (not: a domain given as a function, 3D with a size that is not uniform)
     sbox   the box of the size function (see Shapes)
     pts    points in steps: all the corners of boxes of the (padded) tree and the points fixed by the user (numbers: user)
     near   distance of the nearest vertex of the mesh from each of them, in millionths of the edge length, rounded up *)
EXTENDS Integers, Sequences, FiniteSets, Shapes, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

Range(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Boxes(_)
Boxes(t) == IF t.kind \in {"union", "intersection", "difference"} THEN UNION {Boxes(t.of[k]) : k \in DOMAIN t.of}
            ELSE IF t.kind = "box" THEN {t.a} ELSE {}
Corners(a, d) == {p \in [1..d -> Range(a)] : \A n \in 1..d : p[n] \in {a[2 * n - 1], a[2 * n]}}

(* a point of the boundary that the inside reaches: some of the points around it are inside *)
Around(p) == {q \in [DOMAIN p -> UNION {{x - 1, x, x + 1} : x \in Range(p)}] : \A n \in DOMAIN p : q[n] \in {p[n] - 1, p[n], p[n] + 1}}
OnBoundary(t, p) == TreeSign(t, p) = 0 /\ \E q \in Around(p) : TreeSign(t, q) < 0
Required(c) == IF c.keep THEN {p \in UNION {Corners(a, c.dim) : a \in Boxes(c.tree)} : OnBoundary(c.tree, p)} ELSE {}

(* far from the boundary: the points at the distance d along all the axes and diagonals are inside *)
Deep(t, p, d) ==
  /\ TreeSign(t, p) < 0
  /\ \A q \in [DOMAIN p -> {-1, 0, 1}] : TreeSign(t, [n \in DOMAIN p |-> p[n] + q[n] * d]) < 0

Near(c, p) == \E k \in DOMAIN c.pts : c.pts[k] = p /\ c.near[k] <= 10
Judge(c) ==
  LET R == Required(c)
  IN CASE ~(R \subseteq Range(c.pts)) -> "machinery: a corner was not recorded"
       [] \E k \in DOMAIN c.user : ~(OnBoundary(c.tree, c.pts[c.user[k]]) \/ Deep(c.tree, c.pts[c.user[k]], 2 * c.h))
            -> "machinery: a fixed point that is not eligible"
       [] \E p \in R : ~Near(c, p) -> "a corner is not a vertex"
       [] \E k \in DOMAIN c.user : c.near[c.user[k]] > 10 -> "a fixed point is not a vertex"
       [] OTHER -> "ok"

Verdict(c) == Judge([c EXCEPT !.tree = Padded(c.tree, c.sbox)])

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
