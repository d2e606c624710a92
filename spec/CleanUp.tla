------------------------------ MODULE CleanUp ------------------------------
(* Mesh clean-up (fix_mesh) and unique rows.
   kind "fix":  [dim, unused, orient, P, T, p1, t1, j1, same2, P2, T2]
       P, T    input: lattice positions (coinciding vertices have equal ones), cells (0-based)
       p1, t1, j1   output: positions (rounded to the lattice), cells and map from old to new vertices
       same2   whether applying it again gave the identical mesh up to numbering
       p2, t2  output for the same mesh with vertices and cells listed in another order
   kind "rows": [A, B, I, J]: unique_rows *)
EXTENDS Geom, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
Pos(P, cell) == {P[cell[k] + 1] : k \in DOMAIN cell}
Cells(P, T) == {Pos(P, T[k]) : k \in DOMAIN T}
Used(P, T) == UNION Cells(P, T)
Vol(P, c) == IF Len(c) = 3 THEN Orient2(P[c[1] + 1], P[c[2] + 1], P[c[3] + 1])
             ELSE Orient3(P[c[1] + 1], P[c[2] + 1], P[c[3] + 1], P[c[4] + 1])
Valid(p, t) == \A k \in DOMAIN t : \A m \in DOMAIN t[k] : t[k][m] \in 0..(Len(p) - 1)

Fix(c) ==
  LET want == IF c.unused THEN Used(c.P, c.T) ELSE Range(c.P)
  IN CASE ~Valid(c.p1, c.t1) -> "a cell refers to a vertex that does not exist"
       [] ~Distinct(c.p1) -> "coinciding vertices are not merged"
       [] Range(c.p1) \ want # {} -> "a vertex that is unused or was not there"
       [] want \ Range(c.p1) # {} -> "a vertex is lost"
       [] Cells(c.p1, c.t1) \ Cells(c.P, c.T) # {} -> "a cell that was not there"
       [] Cells(c.P, c.T) \ Cells(c.p1, c.t1) # {} -> "a cell is lost"
       [] Len(c.t1) # Cardinality(Cells(c.P, c.T)) -> "a cell is repeated"
       [] c.orient /\ \E k \in DOMAIN c.t1 : Vol(c.p1, c.t1[k]) < 0 -> "a cell is inverted"
       [] ~c.unused /\ (Len(c.j1) # Len(c.P) \/ \E k \in DOMAIN c.P : c.p1[c.j1[k] + 1] # c.P[k]) -> "the map from old to new vertices"
       [] ~c.same2 -> "cleaning up again changes the mesh"
       [] Range(c.p2) # Range(c.p1) \/ ~Valid(c.p2, c.t2) \/ Cells(c.p2, c.t2) # Cells(c.p1, c.t1) \/ Len(c.t2) # Len(c.t1) ->
            "the result depends on the order of vertices and cells"
       [] OTHER -> "ok"

Rows(c) ==
  CASE Range(c.B) # Range(c.A) \/ ~Distinct(c.B) -> "not the distinct rows"
    [] Len(c.I) # Len(c.B) \/ (\E k \in DOMAIN c.I : c.A[c.I[k] + 1] # c.B[k]) -> "indices of the distinct rows"
    [] Len(c.J) # Len(c.A) \/ (\E k \in DOMAIN c.J : c.B[c.J[k] + 1] # c.A[k]) -> "indices back to the rows"
    [] OTHER -> "ok"

Verdict(c) == IF c.kind = "fix" THEN Fix(c) ELSE Rows(c)
Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
