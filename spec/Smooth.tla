------------------------------- MODULE Smooth -------------------------------
(* Laplacian smoothing of 2D meshes.  Positions are integers in 1/Unit of the lattice (Unit = 1024).
   Case: [P, T, fix, mode, steps, q, same, t]
     P, T    lattice vertices and cells (0-based); fix: indices of fixed vertices
     mode    "direct" (laplacian2_fixed_point), "exactly" (laplacian2 without early stop: steps iterations),
             "upto" (laplacian2 with early stop: it ends after the first step by which no edge gets longer by a hundredth of its
             new length, and after steps steps at the latest)
     q       positions returned, rounded to 1/Unit;  t cells returned
     same    for every vertex: it is returned where it was (to 1e-9) *)
EXTENDS Geom, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
ISqrt(n) == Root(n, 0, 46341)
Sq(x) == x * x
Unit == 1024

Verdict(c) ==
  LET n == Len(c.P)
      V == 1..n
      C == TLCEval([k \in DOMAIN c.T |-> {c.T[k][1] + 1, c.T[k][2] + 1, c.T[k][3] + 1}])
      Edges == UNION {{{c.T[k][1] + 1, c.T[k][2] + 1}, {c.T[k][2] + 1, c.T[k][3] + 1}, {c.T[k][1] + 1, c.T[k][3] + 1}} : k \in DOMAIN c.T}
      NC == TLCEval([e \in Edges |-> Cardinality({k \in DOMAIN C : e \subseteq C[k]})])
      Held == UNION {e \in Edges : NC[e] = 1} \cup {f + 1 : f \in Range(c.fix)}
      Used == UNION Edges
      Free == Used \ Held
      Nb == TLCEval([v \in Free |-> {w \in V : {v, w} \in Edges}])
      RECURSIVE SumP(_, _, _)
      SumP(Q, S, d) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Q[x][d] + SumP(Q, S \ {x}, d)
      Start == TLCEval([v \in V |-> <<Unit * c.P[v][1], Unit * c.P[v][2]>>])
      RoundDiv(a, b) == (2 * a + b) \div (2 * b)
      \* one simultaneous step: every free vertex goes to the average of its neighbours
      Step(Q) == TLCEval([v \in V |-> IF v \in Free THEN <<RoundDiv(SumP(Q, Nb[v], 1), Cardinality(Nb[v])), RoundDiv(SumP(Q, Nb[v], 2), Cardinality(Nb[v]))>>
                              ELSE Q[v]])
      Close(Q, tol) == \A v \in Used : Abs(Q[v][1] - c.q[v][1]) <= tol /\ Abs(Q[v][2] - c.q[v][2]) <= tol
      \* the greatest (L' - L) / L' in 1/10000; positions are off by up to k + 1 units after k steps
      Length(Q, e) == LET a == CHOOSE a \in e : TRUE  b == CHOOSE b \in e : b # a IN ISqrt(Sq(Q[a][1] - Q[b][1]) + Sq(Q[a][2] - Q[b][2]))
      Longer(Q, R, k, s) == \E e \in Edges : LET l == Length(Q, e)  m == Length(R, e)
                                           IN 100 * (m - l + s * (2 * k + 3)) >= m + s * (k + 2) /\ (s < 0 => m > 0)
      RECURSIVE Some(_, _)
      Some(Q, k) == IF k > c.steps THEN FALSE
                    ELSE LET R == Step(Q)
                         IN \/ Close(R, k + 1) /\ (k = c.steps \/ ~Longer(Q, R, k, -1))     \* it may end here
                            \/ Longer(Q, R, k, 1) /\ Some(R, k + 1)                          \* or go on
      RECURSIVE Iter(_, _)
      Iter(Q, k) == IF k = 0 THEN Q ELSE Iter(Step(Q), k - 1)
  IN CASE c.t # c.T -> "the connectivity is changed"
       [] \E v \in Used \cap Held : ~c.same[v] -> "a boundary or fixed vertex is moved"
       [] c.mode = "direct" /\ \E v \in Free : \E d \in {1, 2} :
            Abs(Cardinality(Nb[v]) * c.q[v][d] - SumP(c.q, Nb[v], d)) > Cardinality(Nb[v]) + 1 ->
            "a vertex is not at the average of its neighbours"
       [] c.mode = "exactly" /\ ~Close(Iter(Start, c.steps), c.steps + 1) -> "not the average of the neighbours, repeated"
       [] c.mode = "upto" /\ ~Some(Start, 1) -> "not the averaging steps until edges grow by less than a hundredth"
       [] OTHER -> "ok"

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
