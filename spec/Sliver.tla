------------------------------- MODULE Sliver -------------------------------
(* Sliver removal: a loop that lists the mesh, ends when no cell has a dihedral angle out of bounds, gives up when the
   limit of iterations is reached, and moves a vertex of every sliver otherwise.

   The first part is the loop as a state machine (constants MaxIter, MaxBad), explored by TLC (Sliver.cfg): it ends, it is
   never listed more often than MaxIter, and success is reported iff the last listing had no slivers.
   The second part judges recorded runs: a case is
     [max, lo, hi, tol, nin, it, said, out]
       max     limit of iterations; lo, hi bounds of the angles (millionths of degrees), tol tolerance of the angles
       it      listings: [n, cells, gone, came, bnd]  n number of vertices; cells: <<vertices, least angle, greatest angle>>
               of the cells of the domain that are near to the bounds or beyond; gone: vertices (positions have numbers) that
               are not in the next listing, came: those that are new in it; bnd vertices of the boundary, if they may be moved
       nin     number of points given
       said    "success", "failure" or "other"
       out     [n, new, lost, sign, cells]  the mesh returned: number of vertices, those not in the last listing,
               cells of the last listing not in it or the other way around, number of cells not positively oriented,
               its cells near to the bounds *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS MaxIter, MaxBad
VARIABLES count, bad, said
vars == <<count, bad, said>>

Init == count = 0 /\ bad \in 0..MaxBad /\ said = "running"
Succeed == said = "running" /\ bad = 0 /\ said' = "success" /\ UNCHANGED <<count, bad>>
GiveUp == said = "running" /\ bad > 0 /\ count = MaxIter - 1 /\ said' = "failure" /\ UNCHANGED <<count, bad>>
Perturb == said = "running" /\ bad > 0 /\ count < MaxIter - 1 /\ count' = count + 1 /\ bad' \in 0..MaxBad /\ said' = said
Next == Succeed \/ GiveUp \/ Perturb
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Bounded == count < MaxIter
Honest == /\ said = "success" => bad = 0
          /\ said = "failure" => bad > 0 /\ count = MaxIter - 1
Ends == <>(said # "running")
=============================================================================
