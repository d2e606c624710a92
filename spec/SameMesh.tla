----------------------------- MODULE SameMesh -----------------------------
(* Two meshes are the same set of positioned cells.  Case: [A, B, nA, nB]: cells as sequences of vertex numbers, where
   equal positions have equal numbers; nA, nB number of listed vertices; minimal: the least number of cells expected. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
Ran(s) == {s[k] : k \in DOMAIN s}
CellsOf(M) == {Ran(M[k]) : k \in DOMAIN M}
Used(M) == UNION CellsOf(M)

Verdict(c) ==
  LET A == CellsOf(c.A)  B == CellsOf(c.B)
  IN CASE Len(c.A) < c.minimal -> "the serial mesh has too few cells"
       [] Cardinality(A) # Len(c.A) -> "a cell is repeated in the serial mesh"
       [] Cardinality(B) # Len(c.B) -> "a cell is repeated in the parallel mesh"
       [] ~(A \subseteq B) -> "cells of the serial mesh are missing in the parallel one"
       [] ~(B \subseteq A) -> "the parallel mesh has cells that the serial one does not have"
       [] Cardinality(Used(c.A)) # c.nA -> "unused or repeated vertices in the serial mesh"
       [] Cardinality(Used(c.B)) # c.nB -> "unused or repeated vertices in the parallel mesh"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
