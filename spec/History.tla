------------------------------ MODULE History ------------------------------
(* Histories of public calls.  The library has no state: a call's value is a function of its arguments, whatever
   happened before, and the arguments are as before.
   Calls 1..NCalls are calls with fixed arguments, Noise are other events: the global random state changes, verbosity
   changes, the arguments are built anew.
   Model: an ideal library with a memo of the values seen; TLC enumerates all histories up to length Len and prints them
   (the checks replay them), and shows that in the ideal library every value agrees with the memo. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NCalls, NNoise, Len0, Emit
VARIABLES hist, memo, agree
Ops == 1..(NCalls + NNoise)
Ideal(k) == k * 7          \* any function of the arguments
Init == hist = <<>> /\ memo = [k \in {} |-> 0] /\ agree = TRUE
Do(k) == /\ Len(hist) < Len0
         /\ hist' = Append(hist, k)
         /\ IF k > NCalls THEN UNCHANGED <<memo, agree>>
            ELSE /\ memo' = [j \in DOMAIN memo \cup {k} |-> IF j \in DOMAIN memo THEN memo[j] ELSE Ideal(k)]
                 /\ agree' = (agree /\ (k \in DOMAIN memo => memo[k] = Ideal(k)))
Spec == Init /\ [][\E k \in Ops : Do(k)]_<<hist, memo, agree>>
Stateless == agree
PrintIt == (Emit /\ Len(hist) = Len0) => PrintT("H " \o ToJson(hist))
=============================================================================
