-------------------------------- MODULE Grid --------------------------------
(* Fields on 2D and 3D grids: nodes are tuples of indices from 0; flat lists have the last axis fastest. *)
EXTENDS Geom, TLC

RECURSIVE Digits(_, _, _, _)
\* floor(10^n * num / den) without leaving 32 bits
Digits(num, den, n, acc) == IF n = 0 THEN acc
                            ELSE Digits((num * 10) % den, den, n - 1, acc * 10 + (num * 10) \div den)
Dec(num, den, n) == Digits(num % den, den, n, num \div den)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y

Prod(s) == IF Len(s) = 1 THEN s[1] ELSE IF Len(s) = 2 THEN s[1] * s[2] ELSE s[1] * s[2] * s[3]
Box(d) == IF Len(d) = 2 THEN {<<x, y>> : x \in 0..(d[1]-1), y \in 0..(d[2]-1)}
          ELSE {<<x, y, z>> : x \in 0..(d[1]-1), y \in 0..(d[2]-1), z \in 0..(d[3]-1)}
At(d, x) == 1 + (IF Len(d) = 2 THEN x[1] * d[2] + x[2] ELSE (x[1] * d[2] + x[2]) * d[3] + x[3])
Dist(x, y) == IF Len(x) = 2 THEN Abs(x[1]-y[1]) + Abs(x[2]-y[2]) ELSE Abs(x[1]-y[1]) + Abs(x[2]-y[2]) + Abs(x[3]-y[3])

RECURSIVE SumF(_, _)
SumF(V, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN V[x] + SumF(V, S \ {x})

\* values that the extension adds along one axis: at distance k of n from the original cells
Added(style, v, mx, k, n) == CASE style = "edge" -> v
                               [] style = "constant" -> mx
                               [] style = "linear_ramp" -> v + ((mx - v) * k) \div n
\* f on Box(d) extended along axis ax by lo cells in front and hi cells behind
Extend(f, d, ax, lo, hi, style, mx) ==
  LET e == [d EXCEPT ![ax] = @ + lo + hi]
  IN TLCEval([x \in Box(e) |-> IF x[ax] < lo THEN Added(style, f[[x EXCEPT ![ax] = 0]], mx, lo - x[ax], lo)
                               ELSE IF x[ax] >= lo + d[ax] THEN Added(style, f[[x EXCEPT ![ax] = d[ax] - 1]], mx, x[ax] - lo - d[ax] + 1, hi)
                               ELSE f[[x EXCEPT ![ax] = @ - lo]]])
Grow(d, ax, n) == [d EXCEPT ![ax] = @ + n]
=============================================================================
