-------------------------------- MODULE Loop --------------------------------
(* The iterations of mesh generation on R ranks: every rank triangulates, exchanges with the others, and either ends
   (limit reached) or moves its points; the ranks agree on the movement before they go on.  A rank can fail while it moves
   (no convergence): then all ranks end with an error.
   Explored by TLC: all ranks end, in the same way, after MaxIter triangulations and MaxIter - 1 moves. *)
EXTENDS Integers, FiniteSets

CONSTANTS R, MaxIter, CanFail
VARIABLES tri, mov, pc, big
vars == <<tri, mov, pc, big>>
Ranks == 1..R

Init == /\ tri = [r \in Ranks |-> 0] /\ mov = [r \in Ranks |-> 0]
        /\ pc = [r \in Ranks |-> "triangulate"] /\ big = [r \in Ranks |-> FALSE]
Triangulate(r) == /\ pc[r] = "triangulate"
                  /\ tri' = [tri EXCEPT ![r] = @ + 1]
                  /\ pc' = [pc EXCEPT ![r] = "exchange"] /\ UNCHANGED <<mov, big>>
(* neighbours need each other's exports of this iteration *)
Exchange(r) == /\ pc[r] = "exchange"
               /\ \A n \in Ranks : n \in {r - 1, r + 1} => tri[n] >= tri[r]
               /\ pc' = [pc EXCEPT ![r] = IF tri[r] = MaxIter THEN "gather" ELSE "move"] /\ UNCHANGED <<tri, mov, big>>
Move(r) == /\ pc[r] = "move"
           /\ mov' = [mov EXCEPT ![r] = @ + 1]
           /\ \E b \in (IF CanFail THEN BOOLEAN ELSE {FALSE}) : big' = [big EXCEPT ![r] = b]
           /\ pc' = [pc EXCEPT ![r] = "agree"] /\ UNCHANGED tri
(* the reduction of the movement: all ranks take part and all take the same way *)
Agree == /\ \A r \in Ranks : pc[r] = "agree"
         /\ pc' = [r \in Ranks |-> IF \E s \in Ranks : big[s] THEN "error" ELSE "triangulate"]
         /\ UNCHANGED <<tri, mov, big>>
Gather == /\ \A r \in Ranks : pc[r] = "gather"
          /\ pc' = [r \in Ranks |-> "end"] /\ UNCHANGED <<tri, mov, big>>
Next == Agree \/ Gather \/ \E r \in Ranks : Triangulate(r) \/ Exchange(r) \/ Move(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == {"end", "error"}
Counts == \A r \in Ranks : /\ tri[r] <= MaxIter /\ mov[r] <= tri[r] /\ tri[r] <= mov[r] + 1
                           /\ pc[r] = "end" => tri[r] = MaxIter /\ mov[r] = MaxIter - 1
InStep == \A r, s \in Ranks : tri[r] - tri[s] \in -1..1
Together == \A r, s \in Ranks : pc[r] \in Done => (pc[s] = pc[r] /\ tri[s] = tri[r])
Ends == <>(\A r \in Ranks : pc[r] \in Done)
=============================================================================
