------------------------------ MODULE Limited ------------------------------
(* Recorded calls of the gradation limiter against the closed form of Gradation.tla.
   Case: [d, f, g, h, r, tol, small]  d = <<n1,n2,n3>>; f, g, h: input, result and result of limiting the result,
   as flat sequences with the first axis fastest; r: rate * spacing; tol: allowed error per unit of distance
   (all in the same fixed-point unit); small: judge by the closed form, else by its certificate. *)
EXTENDS Geom, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
Verdict(c) ==
  LET n1 == c.d[1]  n2 == c.d[2]  n3 == c.d[3]
      N == n1 * n2 * n3
      \* position of node k (0-based)
      X(k) == k % n1   Y(k) == (k \div n1) % n2   Z(k) == k \div (n1 * n2)
      Dist(a, b) == Abs(X(a) - X(b)) + Abs(Y(a) - Y(b)) + Abs(Z(a) - Z(b))
      F(k) == c.f[k + 1]  G(k) == c.g[k + 1]
      All == 0..(N - 1)
      Nb(a) == (IF X(a) + 1 < n1 THEN {a + 1} ELSE {}) \cup (IF X(a) > 0 THEN {a - 1} ELSE {})
          \cup (IF Y(a) + 1 < n2 THEN {a + n1} ELSE {}) \cup (IF Y(a) > 0 THEN {a - n1} ELSE {})
          \cup (IF Z(a) + 1 < n3 THEN {a + n1 * n2} ELSE {}) \cup (IF Z(a) > 0 THEN {a - n1 * n2} ELSE {})
      Err == c.tol * (n1 + n2 + n3)
  IN CASE Len(c.g) # N \/ Len(c.h) # N -> "the number of nodes is changed"
       [] \E a \in All : G(a) > F(a) + 1 -> "a value is raised"
       [] \E a \in All : \E b \in Nb(a) : G(a) > G(b) + c.r + c.tol -> "two neighbours differ by more than the rate allows"
       [] \E k \in 1..N : Abs(c.h[k] - c.g[k]) > 1 -> "limiting the limited field changes it"
       [] c.small /\ \E a \in All : \/ \A b \in All : G(a) < F(b) + c.r * Dist(a, b) - 1
                                    \/ \E b \in All : G(a) > F(b) + c.r * Dist(a, b) + Err ->
            "not the minimum over the nodes of value plus rate times distance"
       \* every value is either the input's or exactly the bound that a neighbour sets
       [] ~c.small /\ \E a \in All : G(a) < F(a) - 1 /\ ~\E b \in Nb(a) : Abs(G(a) - G(b) - c.r) <= c.tol + 1 ->
            "a value is lower than any neighbour demands"
       [] OTHER -> "ok"
Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
