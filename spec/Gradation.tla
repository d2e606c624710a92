----------------------------- MODULE Gradation -----------------------------
(* Gradation limiting as a transition system: as long as some value exceeds a neighbour's value by more than
   R, it may be lowered to that bound - in any order.  Checked for all fields on a grid and all orders: values
   only fall, every terminal field is the closed form (the largest field below the input with slope <= R, the
   minimum over all nodes of input + R * distance), and the process ends. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS NX, NY, NZ, Vals, R
VARIABLES f0, f
Nodes == (1..NX) \X (1..NY) \X (1..NZ)
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2]) + Abs(a[3] - b[3])
Nb(a) == {b \in Nodes : Dist(a, b) = 1}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Closed(g) == [a \in Nodes |-> Min({g[b] + R * Dist(a, b) : b \in Nodes})]
Init == f0 \in [Nodes -> Vals] /\ f = f0
Lower(a, b) == /\ f[a] > f[b] + R
               /\ f' = [f EXCEPT ![a] = f[b] + R]
               /\ UNCHANGED f0
Next == \E a \in Nodes : \E b \in Nb(a) : Lower(a, b)
Spec == Init /\ [][Next]_<<f0, f>> /\ WF_<<f0, f>>(Next)

Ended == ~ENABLED Next
Below == \A a \in Nodes : f[a] <= f0[a]
Above == \A a \in Nodes : f[a] >= Closed(f0)[a]
Largest == Ended => f = Closed(f0)
Again == Ended => Closed(f) = f
Ends == <>[]Ended
=============================================================================
