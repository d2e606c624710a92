------------------------------- MODULE Model -------------------------------
(* Velocity files.  Case kinds:
   "bin"    [n, order, sort, file, shape, got]: n = <<nz,nx,ny>>; order: axis m of the model is axis order[m] of the
            file; sort: "F" (first axis of the file fastest) or "C" (last one); file: its values in sequence;
            shape, got: the array returned (last axis fastest)
   "segy"   [traces, shape, got]: one sequence of samples per trace
   "hdf5"   [src, shape, pn, style, dshape, data, attr, units]: written file: data set, its shape, attribute
            "shape"; src: the model that read_velocity_model gives for the same arguments; pn: cells added per axis
   "refuse" [dims, bytes, refused]: dims: all of nz, nx, ny are given; bytes: a byte order is given *)
EXTENDS Grid, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, verdict

Bin(c) ==
  LET Ax == 1..3
      \* length of the axes of the file
      A == [k \in Ax |-> c.n[CHOOSE m \in Ax : c.order[m] + 1 = k]]
      Place(y) == IF c.sort = "F" THEN y[1] + A[1] * (y[2] + A[2] * y[3]) ELSE (y[1] * A[2] + y[2]) * A[3] + y[3]
      FilePos(x) == LET u == [x EXCEPT ![1] = c.n[1] - 1 - x[1]]
                    IN [k \in Ax |-> u[CHOOSE m \in Ax : c.order[m] + 1 = k]]
  IN CASE c.shape # c.n -> "the shape"
       [] \E x \in Box(c.n) : c.got[At(c.n, x)] # c.file[Place(FilePos(x)) + 1] -> "the value at a position"
       [] OTHER -> "ok"
Segy(c) ==
  LET n == <<Len(c.traces[1]), Len(c.traces)>>
  IN CASE c.shape # n -> "the shape"
       [] \E x \in Box(n) : c.got[At(n, x)] # c.traces[x[2] + 1][n[1] - x[1]] -> "the value at a position"
       [] OTHER -> "ok"
Hdf5(c) ==
  LET f0 == TLCEval([x \in Box(c.shape) |-> c.src[At(c.shape, x)]])
      mx == MaxOf(Range(c.src))
      dim == Len(c.shape)
      f1 == Extend(f0, c.shape, 1, c.pn[1], 0, c.style, mx)
      d1 == Grow(c.shape, 1, c.pn[1])
      f2 == Extend(f1, d1, 2, c.pn[2], c.pn[2], c.style, mx)
      d2 == Grow(d1, 2, 2 * c.pn[2])
      f == TLCEval(IF dim = 2 THEN f2 ELSE Extend(f2, d2, 3, c.pn[3], c.pn[3], c.style, mx))
      d == IF dim = 2 THEN d2 ELSE Grow(d2, 3, 2 * c.pn[3])
  IN CASE c.dshape # d -> "the shape of the data written"
       [] c.attr # d -> "the attribute shape"
       [] c.units # "m/s" -> "the attribute units"
       [] \E x \in Box(d) : Abs(c.data[At(d, x)] - f[x]) > 4 -> "a value written"
       [] OTHER -> "ok"
Verdict(c) == CASE c.kind = "bin" -> Bin(c)
                [] c.kind = "segy" -> Segy(c)
                [] c.kind = "hdf5" -> Hdf5(c)
                [] c.kind = "refuse" -> IF (c.dims /\ c.bytes) = (c.refused = "no") /\ c.refused \in {"no", "ValueError"} THEN "ok"
                                        ELSE "missing dimensions or byte order"
Init == i \in 1..Len(Cases) /\ verdict = "?"
Next == /\ verdict = "?" /\ i' = i
        /\ verdict' = Verdict(Cases[i])
        /\ IF verdict' = "ok" THEN TRUE ELSE PrintT(<<"V", i, verdict'>>)
Spec == Init /\ [][Next]_<<i, verdict>>
=============================================================================
