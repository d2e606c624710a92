----------------------------- MODULE Complexes -----------------------------
(* Enumerates simplicial complexes: sets of cells (triangles or tetrahedra) over a few vertices.  A behaviour adds
   one cell after the other; every reachable complex is printed, up to renaming of the vertices it is kept only if its
   first cell is the smallest one (the first cell is always 1..Dim+1). *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Dim, NV, MaxCells, Conforming, Emit
VARIABLES cells
V == 1..NV
AllCells == {s \in SUBSET V : Cardinality(s) = Dim + 1}
Faces(s) == {f \in SUBSET s : Cardinality(f) = Dim}
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o Seq1(S \ {x})
RECURSIVE CellSeq(_)
CellSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<Seq1(x)>> \o CellSeq(S \ {x})

Init == cells = {1..(Dim + 1)}
(* a face belongs to at most two cells of a conforming complex *)
Fits(s) == ~Conforming \/ \A f \in Faces(s) : Cardinality({c \in cells : f \subseteq c}) <= 1
Add == /\ Cardinality(cells) < MaxCells
       /\ \E s \in AllCells \ cells : Fits(s) /\ cells' = cells \cup {s}
Spec == Init /\ [][Add]_cells

TypeOK == cells \subseteq AllCells
(* Euler-Poincare bookkeeping: every face is counted once or twice in a conforming complex *)
FacesOK == Conforming => \A f \in UNION {Faces(c) : c \in cells} : Cardinality({c \in cells : f \subseteq c}) \in 1..2
PrintIt == Emit => PrintT("H " \o ToJson(CellSeq(cells)))
=============================================================================
