------------------------------ MODULE Blocks ------------------------------
(* Decomposition of points into blocks.
   kind "user":      [pts, n, axis, dim, ok, blocks, ext] integer points cut into n slices of equal width along axis;
                     ok: the request was fulfilled; ext the extents of the blocks
   kind "generated": [n, lo, hi, boxlo, boxhi] least and greatest coordinate of the initial points of every rank
                     along the axis, and the domain, in thousandths of the edge length; dup: points that two ranks have *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
Ran(s) == {s[k] : k \in DOMAIN s}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : x >= y
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
RECURSIVE SumOver(_, _)
SumOver(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumOver(f, n - 1)

X(c, p) == p[c.axis + 1]
Lo(c) == Least({X(c, p) : p \in Ran(c.pts)})
Span(c) == Greatest({X(c, p) : p \in Ran(c.pts)}) - Lo(c)
(* p lies in slice b (1-based); a point on a limit lies in both slices *)
InSlice(c, p, b) == /\ (b - 1) * Span(c) <= c.n * (X(c, p) - Lo(c))
                    /\ c.n * (X(c, p) - Lo(c)) <= b * Span(c)
Inside(c, p, b) == \/ /\ (b - 1) * Span(c) < c.n * (X(c, p) - Lo(c))
                      /\ c.n * (X(c, p) - Lo(c)) < b * Span(c)
                   \/ b = 1 /\ X(c, p) = Lo(c)
                   \/ b = c.n /\ X(c, p) = Lo(c) + Span(c)
AxisOK(c) == c.axis \in 0..(c.dim - 1)
Many(c) == Len(c.pts) >= 2 * c.n
Fulfillable(c) == AxisOK(c) /\ (Span(c) > 0 \/ c.n = 1) /\ Many(c) /\ \A b \in 1..c.n : \E p \in Ran(c.pts) : Inside(c, p, b)
Possible(c) == AxisOK(c) /\ Many(c) /\ \A b \in 1..c.n : \E p \in Ran(c.pts) : InSlice(c, p, b)

Extent(c, b) == [k \in 1..(2 * c.dim) |->
                   LET d == IF k <= c.dim THEN k ELSE k - c.dim
                       S == {p[d] : p \in Ran(c.blocks[b])}
                   IN IF k <= c.dim THEN Least(S) ELSE Greatest(S)]
User(c) ==
  IF ~c.ok THEN (IF Fulfillable(c) THEN "a request that can be fulfilled is refused" ELSE "ok")
  ELSE CASE ~Possible(c) -> "a request that cannot be fulfilled is not refused"
         [] Len(c.blocks) # c.n -> "number of blocks"
         [] SumOver([b \in 1..c.n |-> Len(c.blocks[b])], c.n) # Len(c.pts) -> "points are lost or duplicated"
         [] \E p \in Ran(c.pts) : SumOver([b \in 1..c.n |-> Count(c.blocks[b], p)], c.n) # Count(c.pts, p) ->
              "a point is not in exactly one block"
         [] \E b \in 1..c.n : c.blocks[b] = <<>> -> "a block is empty"
         [] \E b \in 1..c.n : \E p \in Ran(c.blocks[b]) : ~InSlice(c, p, b) -> "a point is outside of its slice"
         [] \E a, b \in 1..c.n : a # b /\ Ran(c.blocks[a]) \cap Ran(c.blocks[b]) # {} -> "equal points are in different blocks"
         [] \E b \in 1..c.n : c.ext[b] # Extent(c, b) -> "the extent is not the bounding box"
         [] OTHER -> "ok"

Generated(c) ==
  CASE c.dup # 0 -> "two ranks have the same initial point"
    [] \E r \in 1..(c.n - 1) : c.hi[r] > c.lo[r + 1] + 510 -> "the slices of the ranks overlap"
    [] \E r \in 1..(c.n - 1) : c.lo[r + 1] > c.hi[r] + 2010 -> "the slices of the ranks leave a gap"
    [] c.lo[1] > c.boxlo + 1010 -> "no initial points at the lower end"
    [] c.hi[c.n] < c.boxhi - 1010 -> "no initial points at the upper end"
    [] OTHER -> "ok"

Verdict(c) == IF c.kind = "user" THEN User(c) ELSE Generated(c)
Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
