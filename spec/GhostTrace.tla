----------------------------- MODULE GhostTrace -----------------------------
(* One iteration of a real parallel mesh generation, seen on all ranks.  Vertices are numbered by their
   exact coordinates.  Case: [n, own, sent, ghost, next, disp, last]:
     own[r]     vertices with which rank r builds its triangulation
     sent[r]    messages <<destination, vertices>> of rank r until its triangulation is complete
     ghost[r]   vertices that rank r adds to its triangulation after that
     next[r]    number of vertices with which rank r starts the next iteration (last: there is none)
     disp[r]    displacement of each of them, in thousandths of the edge length *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
Ran(s) == {s[k] : k \in DOMAIN s}

VARIABLES i, verdict
Ranks(c) == 1..c.n
MsgsTo(c, r) == UNION {{<<s, k>> : k \in {k \in DOMAIN c.sent[s] : c.sent[s][k][1] = r - 1}} : s \in Ranks(c)}
Delivered(c, r) == UNION {Ran(c.sent[m[1]][m[2]][2]) : m \in MsgsTo(c, r)}
Near(c, r) == Cardinality({k \in DOMAIN c.disp[r] : c.disp[r][k] <= 3000})

Verdict(c) ==
  CASE \E s \in Ranks(c) : \E k \in DOMAIN c.sent[s] : c.sent[s][k][1] + 1 \notin {s - 1, s + 1} ->
         "a message goes to a block that is not adjacent"
    [] \E s \in Ranks(c) : \E k \in DOMAIN c.sent[s] : ~(Ran(c.sent[s][k][2]) \subseteq Ran(c.own[s])) ->
         "a rank sends vertices that it does not own"
    [] \E s \in Ranks(c) : \E k \in DOMAIN c.sent[s] : Len(c.sent[s][k][2]) # Cardinality(Ran(c.sent[s][k][2])) ->
         "a vertex is listed twice in a message"
    [] \E s \in Ranks(c) : \E k, l \in DOMAIN c.sent[s] :
         k # l /\ c.sent[s][k][1] = c.sent[s][l][1] /\ Ran(c.sent[s][k][2]) \cap Ran(c.sent[s][l][2]) # {} ->
         "a vertex is sent to a block twice"
    [] \E r \in Ranks(c) : ~(Ran(c.ghost[r]) \subseteq Delivered(c, r)) ->
         "a rank adds vertices that were not sent to it"
    [] \E r \in Ranks(c) : ~(Delivered(c, r) \subseteq Ran(c.ghost[r])) ->
         "vertices that were sent to a rank are lost"
    [] \E r \in Ranks(c) : ~c.last /\ c.next[r] < Cardinality(Ran(c.own[r])) -> "a rank loses owned vertices"
    [] \E r \in Ranks(c) : ~c.last /\ c.next[r] > Cardinality(Ran(c.own[r])) -> "a rank keeps received vertices"
    [] \E r \in Ranks(c) : ~c.last /\ 10 * Near(c, r) < 9 * c.next[r] -> "a rank goes on with other vertices than its own"
    [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
