------------------------------ MODULE Enqueue ------------------------------
(* Which vertices a block sends to an adjacent block: those with a cell whose circumscribed ball meets the
   neighbour's extent.  Exact rational geometry: everything is scaled by D, twice (2D) or twice (3D)
   the determinant of the cell.  A ball that only touches the box may count or not.
   Case: [dim, P, T, rank, size, ext, sent]: P points, T cells (1-based, positively oriented),
   ext the boxes <<lo..., hi...>> of all ranks, sent[q] the vertices (1-based, 0 unknown) sent to rank q-1. *)
EXTENDS Geom, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES i, verdict

Sq(a) == LET RECURSIVE S(_)
             S(n) == IF n = 0 THEN 0 ELSE a[n] * a[n] + S(n - 1)
         IN S(Len(a))
(* circumcentre of a cell: its first vertex plus U / D *)
Ball2(a, b, c) ==
  LET x == Sub(b, a)  y == Sub(c, a)
      D == 2 * (x[1] * y[2] - x[2] * y[1])
  IN [D |-> D, U |-> <<y[2] * Sq(x) - x[2] * Sq(y), x[1] * Sq(y) - y[1] * Sq(x)>>]
X3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Ball3(a, b, c, d) ==
  LET x == Sub(b, a)  y == Sub(c, a)  z == Sub(d, a)
      yz == X3(y, z)  zx == X3(z, x)  xy == X3(x, y)
      D == 2 * (x[1] * yz[1] + x[2] * yz[2] + x[3] * yz[3])
  IN [D |-> D, U |-> [n \in 1..3 |-> Sq(x) * yz[n] + Sq(y) * zx[n] + Sq(z) * xy[n]]]
Ball(c, t) == IF c.dim = 2 THEN Ball2(c.P[t[1]], c.P[t[2]], c.P[t[3]])
              ELSE Ball3(c.P[t[1]], c.P[t[2]], c.P[t[3]], c.P[t[4]])

(* squared distance of the box to the centre, minus squared radius, times D squared *)
Gap(c, t, box) ==
  LET B == Ball(c, t)
      s == IF B.D < 0 THEN -1 ELSE 1
      D == s * B.D
      d == [n \in 1..c.dim |->
             LET m == c.P[t[1]][n] * D + s * B.U[n]
                 lo == box[n] * D
                 hi == box[n + c.dim] * D
             IN IF m < lo THEN lo - m ELSE IF m > hi THEN m - hi ELSE 0]
  IN Sq(d) - Sq(B.U)

Around(c, v) == {k \in DOMAIN c.T : v \in Range(c.T[k])}
Must(c, G, v) == \E k \in Around(c, v) : G[k] < 0
May(c, G, v) == \E k \in Around(c, v) : G[k] <= 0

SideOK(c, q) ==
  LET G == [k \in DOMAIN c.T |-> Gap(c, c.T[k], c.ext[q + 1])]
      S == c.sent[q + 1]
  IN CASE 0 \in Range(S) -> "something else than a vertex is sent"
       [] \E v \in DOMAIN c.P : Must(c, G, v) /\ v \notin Range(S) -> "a vertex that the neighbour needs is not exported"
       [] \E v \in Range(S) : ~May(c, G, v) -> "a vertex is exported that the neighbour does not need"
       [] ~Distinct(S) -> "a vertex is exported twice"
       [] OTHER -> "ok"

Verdict(c) ==
  LET nb == {c.rank - 1, c.rank + 1} \cap 0..(c.size - 1)
      bad == {q \in nb : SideOK(c, q) # "ok"}
  IN IF \E q \in 0..(c.size - 1) : q \notin nb /\ c.sent[q + 1] # <<>> THEN "a vertex is exported to a block that is not adjacent"
     ELSE IF bad = {} THEN "ok" ELSE SideOK(c, CHOOSE q \in bad : TRUE)

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
