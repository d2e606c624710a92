------------------------------ MODULE Exchange ------------------------------
(* The ghost exchange of one iteration.  The blocks 0..N-1 lie along a line; every block holds some
   cells near its lower border (class "below"), near its upper border ("above"), spanning both
   ("both"), or inside ("none"); a vertex of a cell is exported to the side(s) of its cells.
   Every message is one action of its sender and one of its receiver; a send is buffered or waits.
   TLC explores all tables and all interleavings and prints what every block must have received. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Max, Emit

Ranks == 0..(N - 1)
Classes == <<"below", "above", "both", "none">>
Tables == [Ranks -> [1..3 -> 0..Max]]
(* the first and the last block have one neighbour only *)
Sensible(t) == t[0][1] = 0 /\ t[0][3] = 0 /\ t[N - 1][2] = 0 /\ t[N - 1][3] = 0
Cells(t, r, c) == {<<r, c, k>> : k \in 1..t[r][c]}
ToBelow(t, r) == IF r = 0 THEN {} ELSE Cells(t, r, 1) \cup Cells(t, r, 3)
ToAbove(t, r) == IF r = N - 1 THEN {} ELSE Cells(t, r, 2) \cup Cells(t, r, 3)
Expected(t, r) == (IF r = 0 THEN {} ELSE ToAbove(t, r - 1)) \cup (IF r = N - 1 THEN {} ELSE ToBelow(t, r + 1))

VARIABLES table, pc, chan, got, held
vars == <<table, pc, chan, got, held>>

(* what a block does: it sends below, receives from above, sends above, receives from below *)
Program(r) == (IF r = 0 THEN <<>> ELSE <<"sb">>) \o (IF r = N - 1 THEN <<>> ELSE <<"ra", "sa">>)
              \o (IF r = 0 THEN <<>> ELSE <<"rb">>)
Ended(r) == pc[r] > Len(Program(r))
At(r, op) == ~Ended(r) /\ r \notin held /\ Program(r)[pc[r]] = op

Init == /\ table \in {t \in Tables : Sensible(t)}
        /\ pc = [r \in Ranks |-> 1]
        /\ chan = [e \in {} |-> {}]
        /\ got = [r \in Ranks |-> {}]
        /\ held = {}

SendTo(r, d, what) ==
  /\ <<r, d>> \notin DOMAIN chan
  /\ chan' = [e \in DOMAIN chan \cup {<<r, d>>} |-> IF e = <<r, d>> THEN what ELSE chan[e]]
  /\ \/ held' = held /\ pc' = [pc EXCEPT ![r] = @ + 1]      \* buffered
     \/ held' = held \cup {r} /\ pc' = pc                    \* waits for the receiver
  /\ UNCHANGED <<table, got>>

RecvFrom(r, s) ==
  /\ <<s, r>> \in DOMAIN chan
  /\ got' = [got EXCEPT ![r] = @ \cup chan[<<s, r>>]]
  /\ chan' = [e \in DOMAIN chan \ {<<s, r>>} |-> chan[e]]
  /\ held' = held \ {s}
  /\ pc' = [q \in Ranks |-> IF q = r \/ (q \in held /\ q = s) THEN pc[q] + 1 ELSE pc[q]]
  /\ UNCHANGED table

Next == \E r \in Ranks :
          \/ At(r, "sb") /\ SendTo(r, r - 1, ToBelow(table, r))
          \/ At(r, "sa") /\ SendTo(r, r + 1, ToAbove(table, r))
          \/ At(r, "ra") /\ RecvFrom(r, r + 1)
          \/ At(r, "rb") /\ RecvFrom(r, r - 1)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllEnded == \A r \in Ranks : Ended(r)
NoStuck == (~ENABLED Next) => AllEnded
Delivered == AllEnded => /\ \A r \in Ranks : got[r] = Expected(table, r)
                         /\ DOMAIN chan = {}
OnlyNeighbours == \A r \in Ranks : \A x \in got[r] : x[1] \in {r - 1, r + 1}
EveryoneEnds == <>AllEnded
PrintIt == (Emit /\ AllEnded) => PrintT("T " \o ToJson([table |-> [r \in 1..N |-> table[r - 1]],
                                                       got |-> [r \in 1..N |-> got[r - 1]]]))
=============================================================================
