-------------------------------- MODULE Calls --------------------------------
(* Calls of generate_mesh and sliver_removal: which are accepted, and how often they iterate.
   kind "call": [fn, dim, domain, bbox, shapebox, size, sizebox, hsign, verbose, iters, unknown, ends, tri]
       fn       "generate", "sliver"
       domain   "shape", "callable", "other"       bbox "floats", "ints", "list", "missing" (for a callable domain)
       shapebox "floats", "ints": limits of the box of the shape
       size     "scalar", "callable", "object", "other"
       hsign    sign of the least edge length: of the scalar, of the object's hmin, or of h0 for a callable; 2: h0 missing
       verbose, iters  their signs (verbose 2: above one)
       ends     for every rank "ok" or "refused"; tri: number of triangulations that were made
   kind "loop": [runs]: runs of one scenario with different limits: [n, ranks]
       ranks    for every rank the points triangulated, as numbers (equal numbers: equal points) *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

BadDomain(c) == \/ c.domain = "other"
                \/ c.domain = "callable" /\ c.bbox \in {"ints", "missing"}
                \/ c.domain = "callable" /\ c.bbox = "list" /\ c.size # "object"   \* boxes are joined to a tuple
                \/ c.domain = "shape" /\ c.shapebox = "ints"
BadSize(c) == \/ c.size = "other"
              \/ c.size = "object" /\ c.sizebox = "ints"
              \/ c.hsign # 1
Refuse(c) == \/ c.unknown
             \/ BadDomain(c)
             \/ BadSize(c)
             \/ c.verbose < 0
             \/ c.iters <= 0
             \/ c.fn = "sliver" /\ c.dim = 2

Call(c) ==
  LET W == {c.ends[r] : r \in DOMAIN c.ends}
  IN CASE Cardinality(W) # 1 -> "the ranks disagree on whether the call is valid"
       [] "stuck" \in W -> "a call does not end"
       [] Refuse(c) /\ W # {"refused"} -> "an invalid call is accepted"
       [] Refuse(c) /\ c.tri # 0 -> "an invalid call is refused only after meshing"
       [] ~Refuse(c) /\ W # {"ok"} -> "a valid call is refused"
       [] OTHER -> "ok"

Loop(c) ==
  LET K == DOMAIN c.runs
      Bad(k) == \E r \in DOMAIN c.runs[k].ranks : Len(c.runs[k].ranks[r]) # c.runs[k].n
      Still(k) == \E r \in DOMAIN c.runs[k].ranks :
                    \E j \in 1..(Len(c.runs[k].ranks[r]) - 1) : c.runs[k].ranks[r][j] = c.runs[k].ranks[r][j + 1]
      Differ(k, l) == c.runs[k].n < c.runs[l].n /\ \E r \in DOMAIN c.runs[k].ranks :
                        c.runs[k].ranks[r] # SubSeq(c.runs[l].ranks[r], 1, c.runs[k].n)
  IN CASE \E k \in K : Bad(k) -> "not as many triangulations as iterations"
       [] \E k \in K : Still(k) -> "an iteration without movement"
       [] \E k, l \in K : Differ(k, l) -> "the iterations depend on their limit"
       [] OTHER -> "ok"

Verdict(c) == IF c.kind = "call" THEN Call(c) ELSE Loop(c)

Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
