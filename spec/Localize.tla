----------------------------- MODULE Localize -----------------------------
(* The mesh size function of a rank against the global one, a polynomial
     f(x) = c0 + sum lin_d x_d + sum of mixed products + sum quad_d x_d^2
   in its slab and two edge lengths around it.  Multilinear functions are reproduced; a convex quadratic part is
   overestimated by at most h0^2/4 quad_d per axis.  Coordinates in quarters, values in 1/1024.
   Case: [dim, c0, lin, xy, xz, yz, xyz, quad, h2, pts, got, tol]; h2 = (4 h0)^2 rounded up. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

RECURSIVE Dot(_, _, _)
Dot(a, b, n) == IF n = 0 THEN 0 ELSE a[n] * b[n] + Dot(a, b, n - 1)
F(c, p) ==
  LET z == IF c.dim = 3 THEN p[3] ELSE 0
      sq == [d \in 1..c.dim |-> p[d] * p[d]]
  IN 1024 * c.c0 + 256 * Dot(c.lin, p, c.dim)
     + 64 * (c.xy * p[1] * p[2] + c.xz * p[1] * z + c.yz * p[2] * z + Dot(c.quad, sq, c.dim))
     + 16 * c.xyz * p[1] * p[2] * z
RECURSIVE Sum(_, _)
Sum(a, n) == IF n = 0 THEN 0 ELSE a[n] + Sum(a, n - 1)
(* quad h0^2 / 4 in 1/1024 with h0^2 = h2 / 16 *)
Slack(c) == 16 * c.h2 * Sum(c.quad, c.dim)

Verdict(c) ==
  CASE Len(c.got) # Len(c.pts) -> "number of values"
    [] \E k \in DOMAIN c.pts : c.got[k] < F(c, c.pts[k]) - c.tol -> "the local size is smaller than the global one"
    [] \E k \in DOMAIN c.pts : c.got[k] > F(c, c.pts[k]) + Slack(c) + c.tol -> "the local size is larger than the global one"
    [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
