------------------------------ MODULE Gather ------------------------------
(* The global mesh on rank 0 is the concatenation of the local meshes in the order of the ranks.
   Case: [n, blocks, P, T, others]: blocks[r] = [P, T] (T 1-based, integer coordinates), P, T the value on rank 0,
   others: the number of ranks > 0 that obtained something else than a placeholder. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

Ran(s) == {s[k] : k \in DOMAIN s}
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Used(b) == UNION {Ran(b.T[k]) : k \in DOMAIN b.T}
Pos(P, t) == {P[v] : v \in Ran(t)}

Verdict(c) ==
  LET B == c.blocks
      nc == [r \in 1..c.n |-> Len(B[r].T)]
      nv == [r \in 1..c.n |-> Cardinality(Used(B[r]))]
      Part(r) == (Sum(nc, r - 1) + 1)..Sum(nc, r)
      Own(r) == (Sum(nv, r - 1) + 1)..Sum(nv, r)
  IN CASE Len(c.T) # Sum(nc, c.n) -> "number of cells"
       [] Len(c.P) # Sum(nv, c.n) -> "number of vertices"
       [] \E k \in DOMAIN c.T : ~(Ran(c.T[k]) \subseteq DOMAIN c.P) -> "a cell refers to a vertex that does not exist"
       [] \E r \in 1..c.n : \E k \in Part(r) : ~(Ran(c.T[k]) \subseteq Own(r)) -> "a cell refers to a vertex of another block"
       [] \E r \in 1..c.n : {c.P[v] : v \in Own(r)} # {B[r].P[v] : v \in Used(B[r])} -> "the vertices of a block are altered"
       [] \E r \in 1..c.n : {Pos(c.P, c.T[k]) : k \in Part(r)} # {Pos(B[r].P, B[r].T[k]) : k \in DOMAIN B[r].T} -> "the cells of a block are altered"
       [] c.others # 0 -> "another rank obtains more than a placeholder"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
