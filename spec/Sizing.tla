------------------------------- MODULE Sizing -------------------------------
(* Mesh sizes from a velocity model.  Lengths are integers in 1/1000 of a unit, velocities integers (unit/s).
   Case kind "size": [dim, d, vp, water, a, b, grad, win, hmin, hmax, p, q, grade8, sp, pad, style, box,
                      nd, nodes, mids, obox, ohmin]
     d, vp    shape of the model and its values (last axis fastest); 0 is water
     a, b     cells per wavelength (0: rule not requested), twice the frequency
     grad,win gradient rule (0: not requested) and its window
     p, q     smallest size for the time step is velocity * p / q (p = 0: not requested)
     grade8   8 * rate (0: not requested);  sp: grid spacing per axis
     pad      width of the extension;  pn: cells it adds per axis;  style: "edge", "constant", "linear_ramp"
     nd, nodes  shape and values of the resulting field;  mids: [2 * index ..., value] at half-way positions
     obox, ohmin  box and minimum that the size function reports
   Case kind "call": [wl, freq, grad, grade, dt, cr, order, pad, style, unknown, boxlen, zeros, water, refused]
     numbers are signs or classes as explained at Refuse. *)
EXTENDS Grid, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
K == 1000

Reflect(k, n) == LET m == k % (2 * n) IN IF m < n THEN m ELSE 2 * n - 1 - m
\* the pipeline: a function from nodes to lengths
Field(c) ==
  LET d == c.d
      N == Box(d)
      vp == TLCEval([x \in N |-> LET v == c.vp[At(d, x)] IN IF v = 0 THEN c.water ELSE v])
      wave == [x \in N |-> (2 * K * vp[x]) \div (c.a * c.b)]
      \* variance of the velocity in the window around a node (times the squared number of its nodes)
      Off == Box(c.win)
      Pos(x, o) == [k \in DOMAIN x |-> Reflect(x[k] - c.win[k] \div 2 + o[k], d[k])]
      n == Prod(c.win)
      var == TLCEval([x \in N |-> LET s == SumF([o \in Off |-> vp[Pos(x, o)]], Off)
                                      s2 == SumF([o \in Off |-> vp[Pos(x, o)] * vp[Pos(x, o)]], Off)
                                  IN n * s2 - s * s])
      Mx == MaxOf({var[x] : x \in N})
      Mn == MinOf({var[x] : x \in N})
      gra == [x \in N |-> IF Mx = 0 THEN 10 * K * c.grad ELSE (c.grad * Dec(10 * Mx, 10 * (var[x] - Mn) + Mx, 5)) \div 100]
      s1 == TLCEval([x \in N |-> IF c.a = 0 /\ c.grad = 0 THEN c.hmin
                         ELSE IF c.a = 0 THEN gra[x] ELSE IF c.grad = 0 THEN wave[x] ELSE MinI(wave[x], gra[x])])
      s2 == TLCEval([x \in N |-> MinI(MaxI(s1[x], c.hmin), c.hmax)])
      s3 == TLCEval([x \in N |-> IF c.p = 0 THEN s2[x] ELSE MaxI(s2[x], (K * vp[x] * c.p) \div c.q)])
      R == (c.grade8 * MinOf(Range(c.sp)) * K) \div 8
      s4 == TLCEval([x \in N |-> IF c.grade8 = 0 THEN s3[x] ELSE MinOf({s3[y] + R * Dist(x, y) : y \in N})])
  IN s4

\* number of cells added along an axis: as many as fit
Cells(c, ax) == c.pad \div (c.sp[ax] * K)
Padded(c, f) ==
  IF c.pad = 0 THEN f
  ELSE LET mx == MaxOf({f[x] : x \in Box(c.d)})
           n1 == Cells(c, 1)   n2 == Cells(c, 2)
           g1 == Extend(f, c.d, 1, n1, 0, c.style, mx)
           d1 == Grow(c.d, 1, n1)
           g2 == Extend(g1, d1, 2, n2, n2, c.style, mx)
           d2 == Grow(d1, 2, 2 * n2)
       IN IF c.dim = 2 THEN g2 ELSE Extend(g2, d2, 3, Cells(c, 3), Cells(c, 3), c.style, mx)
PadShape(c) == IF c.pad = 0 THEN c.d
               ELSE [k \in 1..c.dim |-> c.d[k] + (IF k = 1 THEN 1 ELSE 2) * Cells(c, k)]
PadBox(c) == [k \in 1..(2 * c.dim) |-> IF k = 2 THEN c.box[k] ELSE IF k % 2 = 1 THEN c.box[k] - c.pad ELSE c.box[k] + c.pad]

Tol(v) == 5 + v \div 20000
Close(u, v) == Abs(u - v) <= Tol(v)
Size(c) ==
  LET F == TLCEval(Padded(c, Field(c)))
      D == PadShape(c)
      Around(h) == {x \in Box(D) : \A k \in DOMAIN x : 2 * x[k] = h[k] \/ 2 * x[k] + 1 = h[k] \/ 2 * x[k] - 1 = h[k]}
  IN CASE c.obox # PadBox(c) -> "the bounding box"
       [] c.ohmin # c.hmin -> "the minimum size that is reported"
       [] c.nd # D -> "the number of grid points"
       [] \E x \in Box(D) : ~Close(c.nodes[At(D, x)], F[x]) -> "the size at a node"
       [] \E m \in Range(c.mids) : LET A == Around(m[1]) IN ~Close(m[2], SumF(F, A) \div Cardinality(A)) -> "the size between nodes"
       [] OTHER -> "ok"

(* kind "call": wl, freq, grad, grade, dt, cr, order, pad as signs -1, 0, 1; style one of the three or "other";
   unknown: an option that does not exist; boxlen; zeros: there is water; water: 0 none, 1 admissible, 2 out of range *)
Refuse(c) == \/ c.unknown \/ c.boxlen \notin {4, 6}
             \/ c.wl < 0 \/ c.grad < 0 \/ c.grade < 0 \/ c.pad < 0
             \/ c.wl > 0 /\ c.freq < 0
             \/ c.dt # 0 /\ c.cr # 0 /\ c.order # 0 /\ (c.dt < 0 \/ c.cr < 0 \/ c.order < 0)
             \/ c.zeros /\ c.water # 1
             \/ c.pad > 0 /\ c.style = "other"
Call(c) == IF Refuse(c) = (c.refused = "ValueError") /\ c.refused \in {"no", "ValueError"} THEN "ok"
           ELSE IF Refuse(c) THEN "an invalid request is not refused" ELSE "a valid request is refused"
Verdict(c) == IF c.kind = "size" THEN Size(c) ELSE Call(c)

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
