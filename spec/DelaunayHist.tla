---------------------------- MODULE DelaunayHist ----------------------------
(* All histories of an incremental triangulation on a small lattice, up to MaxOps
   operations; TLC prints the complete ones for replay in the implementation. *)
EXTENDS Delaunay, TLC, Json

CONSTANTS Dim, Side,      \* points of the lattice 0..Side in every coordinate
          MaxFirst,       \* size of the first insertion
          MinFirst,
          MaxOps, MaxBatch,
          Emit            \* print the histories

Lattice == IF Dim = 2 THEN {<<x, y>> : x \in 0..Side, y \in 0..Side}
           ELSE {<<x, y, z>> : x \in 0..Side, y \in 0..Side, z \in 0..Side}

VARIABLES pts, hist
vars == <<pts, hist>>

Batches(S) == {B \in SUBSET S : Cardinality(B) \in 1..MaxBatch}

Init == /\ pts = {} /\ hist = <<>>

First == /\ hist = <<>>
         /\ \E B \in SUBSET Lattice :
              /\ Cardinality(B) \in MinFirst..MaxFirst
              /\ pts' = InsertOp(pts, SetToSeq(B))
              /\ hist' = <<[op |-> "insert", a |-> SetToSeq(B), b |-> <<>>]>>

DoInsert == \E B \in Batches(Lattice) :
              /\ pts' = InsertOp(pts, SetToSeq(B))
              /\ hist' = Append(hist, [op |-> "insert", a |-> SetToSeq(B), b |-> <<>>])

DoRemove == \E B \in Batches(pts) :
              /\ pts' = RemoveOp(pts, SetToSeq(B))
              /\ hist' = Append(hist, [op |-> "remove", a |-> SetToSeq(B), b |-> <<>>])

(* a batch moves distinct vertices; in a batch of two no vertex that is still to be moved is hit *)
DoMove == \/ \E p \in pts : \E q \in Lattice :
              /\ pts' = MoveOp(pts, <<p>>, <<q>>)
              /\ hist' = Append(hist, [op |-> "move", a |-> <<p>>, b |-> <<q>>])
        \/ /\ MaxBatch > 1
           /\ \E p1, p2 \in pts : \E q1 \in Lattice \ pts : \E q2 \in Lattice \ (pts \cup {q1}) :
              /\ p1 # p2
              /\ pts' = MoveOp(pts, <<p1, p2>>, <<q1, q2>>)
              /\ hist' = Append(hist, [op |-> "move", a |-> <<p1, p2>>, b |-> <<q1, q2>>])

Done == Len(hist) = MaxOps
Next == IF hist = <<>> THEN First
        ELSE ~Done /\ (DoInsert \/ DoRemove \/ DoMove)

Spec == Init /\ [][Next]_vars

(* the design: no operation creates or loses other points than it says *)
TypeOK == pts \subseteq Lattice
PointsAccounted ==
  [][/\ pts' \ pts \subseteq Range(hist'[Len(hist')].a) \cup Range(hist'[Len(hist')].b)
     /\ pts \ pts' \subseteq Range(hist'[Len(hist')].a)]_vars

PrintIt == (Emit /\ Done) => PrintT("H " \o ToJson(hist))
=============================================================================
