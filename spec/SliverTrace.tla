---------------------------- MODULE SliverTrace ----------------------------
(* Recorded runs of sliver removal are behaviours of Sliver.tla (see there for the format of a case). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

Range(s) == {s[k] : k \in DOMAIN s}
(* a cell is a sliver / may count as one (angles equal to a bound up to round-off) *)
Sure(c, x) == x[2] < c.lo - c.tol \/ x[3] > c.hi + c.tol
May(c, x) == x[2] < c.lo + c.tol \/ x[3] > c.hi - c.tol
Slivers(c, L) == {k \in DOMAIN L : Sure(c, L[k])}
Maybe(c, L) == {k \in DOMAIN L : May(c, L[k])}

(* the step from listing k to the next one is Perturb *)
Perturb(c, k) ==
  LET s == c.it[k]
      V == UNION {Range(s.cells[n][1]) : n \in Maybe(c, s.cells)}
      Gone == Range(s.gone)
  IN CASE Maybe(c, s.cells) = {} -> "goes on without slivers"
       [] \E v \in Gone : v \notin V /\ v \notin Range(s.bnd) -> "a vertex that is not of a sliver was moved"
       [] Len(s.came) > Len(s.gone) \/ c.it[k + 1].n > s.n -> "vertices were added"
       [] \E n \in Slivers(c, s.cells) : Range(s.cells[n][1]) \cap Gone = {} -> "a sliver was not moved"
       [] OTHER -> "ok"

Verdict(c) ==
  LET n == Len(c.it)
      steps == {k \in 1..(n - 1) : Perturb(c, k) # "ok"}
      last == c.it[n]
      o == c.out
  IN CASE n = 0 -> "no triangulation"
       [] n > c.max -> "more iterations than the limit"
       [] c.it[1].n # c.nin -> "not started with the points given"
       [] steps # {} -> Perturb(c, CHOOSE k \in steps : \A j \in steps : k <= j)
       [] c.said = "other" -> "neither success nor failure is reported"
       [] c.said = "success" /\ Slivers(c, last.cells) # {} -> "success with slivers"
       [] c.said = "failure" /\ Maybe(c, last.cells) = {} -> "failure without slivers"
       [] c.said = "failure" /\ n # c.max -> "gave up before the limit"
       [] c.said = "success" /\ Slivers(c, o.cells) # {} -> "success, but the mesh returned has slivers"
       [] c.said = "failure" /\ Maybe(c, o.cells) = {} -> "failure, but the mesh returned has no slivers"
       [] o.n > c.nin -> "more vertices than given"
       [] o.new # 0 -> "the mesh returned has vertices that were not triangulated"
       [] o.lost # 0 -> "the cells returned are not those of the triangulation inside of the domain"
       [] o.sign # 0 -> "a cell is inverted"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
