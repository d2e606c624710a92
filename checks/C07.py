"""C07: incremental Delaunay triangulations, replay of specification histories and trace validation."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import json

import core


def histories(c, consts, limit):
    r = c.add(core.tlc("DelaunayHist", consts=consts + ["Emit = TRUE"], timeout=800))
    hs = [json.loads(json.loads(l)[2:]) for l in r.out.splitlines() if l.startswith('"H ')]
    hs.sort(key=json.dumps)
    c.extra.setdefault("histories_generated", []).append({"consts": consts, "histories": len(hs)})
    if len(hs) > limit:
        hs = random.Random(c.seed).sample(hs, limit)
    return hs


def rand_history(rng, dim, side, nops, first):
    def pt():
        return [rng.randint(0, side) for _ in range(dim)]
    pts = []
    h = []
    a = [pt() for _ in range(first)]
    h.append({"op": "insert", "a": a, "b": []})
    for p in a:
        if p not in pts:
            pts.append(p)
    for _ in range(nops):
        o = rng.choice(["insert", "insert", "remove", "move", "move", "edges"])
        if o == "insert":
            a = [pt() for _ in range(rng.randint(1, 8))]
            h.append({"op": o, "a": a, "b": []})
            pts += [p for n, p in enumerate(a) if p not in pts and p not in a[:n]]
        elif o == "remove" and len(pts) > 3:
            a = rng.sample(pts, rng.randint(1, min(4, len(pts) - 2)))
            h.append({"op": o, "a": a, "b": []})
            pts = [p for p in pts if p not in a]
        elif o == "move" and pts:
            if rng.random() < 0.2:
                a, b = [rng.choice(pts)], [rng.choice(pts)]  # onto another one, or nowhere
            else:
                free = (side + 1) ** dim - len(pts)
                if free < 1:
                    continue
                a = rng.sample(pts, rng.randint(1, min(6, len(pts), (free + 1) // 2)))
                b = []
                while len(b) < len(a):
                    q = pt()
                    if q not in pts and q not in b:
                        b.append(q)
            h.append({"op": o, "a": a, "b": b})
            for p, q in zip(a, b):
                pts.remove(p)
                if q not in pts:
                    pts.append(q)
        else:
            h.append({"op": "edges", "a": [], "b": []})
    return h


def run(job):
    """Replay one history in the real triangulation; the listing after every operation is recorded."""
    dim, hist, scale, off, seed = job
    import numpy as np
    from SeismicMesh.generation import DelaunayTriangulation, DelaunayTriangulation3
    rng = random.Random(seed)
    dt = DelaunayTriangulation() if dim == 2 else DelaunayTriangulation3()

    def fwd(ps):
        return (np.array(ps, dtype=float).reshape(-1, dim) * scale + off).ravel().tolist()
    V = []
    ev = []
    for e in hist:
        where = {tuple(v): n for n, v in enumerate(V)}
        if e["op"] != "insert" and any(tuple(p) not in where for p in e["a"]):
            break  # the previous listing is already wrong, and is judged as such
        if e["op"] == "insert":
            dt.insert(fwd(e["a"]))
        elif e["op"] == "remove":
            dt.remove([where[tuple(p)] for p in e["a"]])
        elif e["op"] == "move":
            dt.move([where[tuple(p)] for p in e["a"]], fwd(e["b"]))
        raw = np.asarray(dt.get_finite_vertices())
        back = (raw - off) / scale
        Vi = np.rint(back)
        V = np.where(np.abs(back - Vi) < 1e-9, Vi, 9999).astype(int).reshape(-1, dim).tolist()
        T = (np.asarray(dt.get_finite_cells()) + 1).reshape(-1, dim + 1).tolist()
        n = dt.number_of_faces() if dim == 2 else dt.number_of_cells()
        rec = {"op": e["op"], "a": e["a"], "b": e["b"], "V": V, "T": T, "count": dt.number_of_vertices(), "ncells": n,
               "E": [], "S": []}
        if e["op"] == "edges":
            rec["S"] = [rng.choice([0, 1, 1]) for _ in T]
            rec["E"] = (np.asarray(dt.get_edges(rec["S"])) + 1).reshape(-1, 2).tolist() if any(rec["S"]) else []
        ev.append(rec)
    return {"dim": dim, "ev": ev}


def batch(job):
    """The one-shot triangulations keep the numbering of the caller."""
    dim, pts = job
    import numpy as np
    from SeismicMesh import generation as g
    p = np.array(pts, dtype=float)
    f = g._delaunay2 if dim == 2 else g._delaunay3
    T = np.asarray(f(*[np.ascontiguousarray(p[:, d]) for d in range(dim)])) + 1
    T = T.reshape(-1, dim + 1).tolist()
    e = {"op": "insert", "a": pts, "b": [], "V": pts, "T": T, "count": len(pts), "ncells": len(T), "E": [], "S": []}
    return {"dim": dim, "ev": [e]}


def validate(c, jobs, fn, label, timeout=60):
    res = core.pmap(fn, jobs, timeout=timeout)
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, res)):
        v = c.outcome(r, "%s-%d" % (label, n), j)
        if v is not None:
            cases.append(v)
            keys.append("%s-%d" % (label, n))
    if not cases:
        return
    for a in range(0, len(cases), 4000):
        part, kp = cases[a:a + 4000], keys[a:a + 4000]
        r = c.add(core.tlc("DelaunayTrace", cases=part, timeout=800))
        want = sum(len(x["ev"]) + 1 for x in part)
        if not r.verdicts and r.distinct != want:
            raise core.TLCError("evaluated %d of %d trace states" % (r.distinct, want))
        c.traces += len(part)
        for i, clause in r.verdicts:
            c.violation("%s:%s" % (kp[i - 1], clause), "Delaunay: " + clause, {"case": part[i - 1], "clause": clause})
        c.sample({"dim": part[0]["dim"], "ev": part[0]["ev"][:2]})


def body(c):
    rng = random.Random(c.seed)
    jobs = []
    cfgs = [("2", "2", "2", "9", "2", "1", c.scale(4000, 30000)), ("3", "1", "3", "8", "2", "1", c.scale(1500, 12000))]
    if c.thorough:
        cfgs += [("2", "2", "4", "4", "3", "1", 40000), ("2", "2", "5", "6", "2", "2", 30000)]
    for dim, side, mn, mx, ops, mb, lim in cfgs:
        hs = histories(c, ["Dim = " + dim, "Side = " + side, "MinFirst = " + mn, "MaxFirst = " + mx,
                           "MaxOps = " + ops, "MaxBatch = " + mb], lim)
        for h in hs:
            jobs.append((int(dim), h, 0.25, 3.0, 0))
    validate(c, jobs, run, "hist")
    jobs = []
    for n in range(c.scale(60, 600)):
        dim = rng.choice([2, 2, 3])
        side = rng.choice([2, 4, 9] if dim == 2 else [2, 3, 5])
        jobs.append((dim, rand_history(rng, dim, side, c.scale(8, 16), rng.randint(0, 25 if dim == 2 else 16)),
                     rng.choice([1.0, 0.125, 1024.0]), rng.choice([0.0, -7.0]), n))
    validate(c, jobs, run, "random")
    jobs = []
    for n in range(c.scale(60, 600)):
        dim = rng.choice([2, 3])
        side = rng.choice([2, 4, 9] if dim == 2 else [2, 3, 5])
        s = set()
        for _ in range(rng.randint(4, 24)):
            s.add(tuple(rng.randint(0, side) for _ in range(dim)))
        s = [list(x) for x in s]
        rng.shuffle(s)
        jobs.append((dim, s))
    validate(c, jobs, batch, "oneshot")
    c.assumptions += ["coordinates are dyadic multiples of lattice points, so that the exact predicates of the code and of the specification see the same numbers"]


core.main("C07", body)
