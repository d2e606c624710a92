"""C06: the local mesh size function of every rank agrees with the global one (Localize.tla)."""
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi


def field(c):
    import numpy as np
    dim = c["dim"]

    def f(x):
        x = [np.asarray(a, dtype=float) for a in (x if isinstance(x, tuple) else np.asarray(x).T)]
        z = x[2] if dim == 3 else 0.0
        v = c["c0"] + sum(c["lin"][d] * x[d] + c["quad"][d] * x[d] ** 2 for d in range(dim))
        return v + c["xy"] * x[0] * x[1] + c["xz"] * x[0] * z + c["yz"] * x[1] * z + c["xyz"] * x[0] * x[1] * z
    return f


def run(job):
    c, box, h0, axis, size, semantics, seed = job
    import numpy as np
    from SeismicMesh import migration
    dim = c["dim"]
    bbox = np.array(box, dtype=float)
    lim = np.linspace(bbox[axis, 0], bbox[axis, 1], size + 1)

    def target(comm):
        rng = random.Random(seed * 31 + comm.rank)
        b = bbox.copy()
        lfh = migration.localize_sizing_function(field(c) if comm.rank == 0 else None, h0, b, dim, axis, comm)
        if not np.array_equal(b, bbox):
            raise RuntimeError("the bounding box was modified")
        pts = []
        lo, hi = bbox[:, 0].copy(), bbox[:, 1].copy()
        lo[axis], hi[axis] = lim[comm.rank], lim[comm.rank + 1]
        lo, hi = np.ceil(4 * (lo - 1.99 * h0)), np.floor(4 * (hi + 1.99 * h0))
        for k in range(40):
            pts.append([rng.randint(int(lo[d]), int(hi[d])) for d in range(dim)])
        for k in range(2 ** dim):
            pts.append([int((lo, hi)[(k >> d) & 1][d]) for d in range(dim)])
        v = np.asarray(lfh(np.array(pts, dtype=float) / 4), dtype=float).ravel()
        got = [int(round(float(y) * 1024)) if np.isfinite(y) and abs(y) < 1e6 else 2 * 10 ** 9 for y in v]
        return pts, got
    w = fakempi.run_world(size, target, semantics, seed, timeout=60)
    if not w.ok:
        return ("bad", w.describe())
    out = []
    for pts, got in w.values():
        k = dict(c)
        k.update(pts=pts, got=got, h2=int(math.ceil((4 * h0) ** 2)), tol=2)
        out.append(k)
    return ("cases", out)


def body(c):
    rng = random.Random(c.seed * 23 + 6)
    jobs = []
    for n in range(c.scale(200, 2500)):
        dim = rng.choice([2, 3])
        size = rng.choice([1, 2, 3, 4, 5])
        axis = rng.randrange(dim)
        h0 = rng.choice([1.0, 0.5, 0.7, 1.3])
        mixed = rng.random() < 0.7
        p = {"dim": dim, "c0": rng.randint(1, 40), "lin": [rng.randint(-4, 4) for _ in range(dim)],
             "xy": rng.randint(-2, 2) * mixed, "xz": rng.randint(-2, 2) * mixed * (dim == 3),
             "yz": rng.randint(-2, 2) * mixed * (dim == 3), "xyz": rng.choice([0, 1, -1]) * mixed * (dim == 3),
             "quad": [rng.choice([0, 0, 1, 2]) if rng.random() < 0.4 else 0 for _ in range(dim)]}
        box = []
        for d in range(dim):
            a = rng.choice([0, -7.5, 3, -12])
            L = rng.choice([2, 3.5, 5, 9]) if d != axis else rng.choice([4, 7.3, 11])
            box.append([a, a + L])
        jobs.append((p, box, h0, axis, size, rng.choice(["buffered", "sync", "mixed"]), n))
    res = core.pmap(run, jobs, procs=6, timeout=80)
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, res)):
        key = "case-%d" % n
        v = c.outcome(r, key, j)
        if v is None:
            continue
        if v[0] == "bad":
            c.violation(key + ":" + v[1][:60], v[1], {"job": j})
            continue
        cases += v[1]
        keys += ["%s-rank%d" % (key, q) for q in range(len(v[1]))]
    c.cases("Localize", cases, keys, timeout=800)
    c.assumptions += ["size fields are polynomials: multilinear ones are reproduced exactly, convex quadratic ones up to the interpolation error of a grid with spacing h0"]


core.main("C06", body)
