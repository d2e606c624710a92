"""C03: a vertex is exported to a neighbour iff the circumball of one of its cells meets the neighbour's extent.

enqueue and exchange are run for triangulations of lattice points and lattice boxes, and Enqueue.tla decides in
exact arithmetic which vertices had to be sent."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi


class Sink(fakempi.Comm):
    """Takes every message and answers every receive with an empty one."""

    def __init__(self, rank, size, dim):
        super().__init__(rank, size)
        self.dim, self.sent = dim, []

    def _call(self, op, *a):
        import numpy as np
        if op == "send":
            self.sent.append((int(a[0]), a[2]))
        elif op == "isend":
            self.sent.append((int(a[1]), a[3]))
        elif op in ("recv", "wait"):
            return np.empty((0, self.dim))
        elif op == "test":
            return True, np.empty((0, self.dim))
        return None


def run(job):
    dim, P, rank, size, ext, scale, off = job
    import numpy as np
    from SeismicMesh import generation as g
    from SeismicMesh import migration
    p = np.array(P, dtype=float) * scale + off
    f = g._delaunay2 if dim == 2 else g._delaunay3
    T = np.asarray(f(*[np.ascontiguousarray(p[:, d]) for d in range(dim)])).reshape(-1, dim + 1)
    comm = Sink(rank, size, dim)
    e = [(np.array(b, dtype=float) * scale + off).tolist() for b in ext]
    ex = migration.enqueue(e, p.copy(), T.copy(), rank, size, dim=dim)
    migration.exchange(comm, rank, size, ex, dim=dim)
    where = {tuple(x): n + 1 for n, x in enumerate(p.tolist())}
    sent = [[] for _ in range(size)]
    for d, q in comm.sent:
        for x in np.asarray(q, dtype=float).reshape(-1, dim).tolist():
            sent[d].append(where.get(tuple(x), 0))
    return {"dim": dim, "P": P, "T": (T + 1).tolist(), "rank": rank, "size": size, "ext": ext, "sent": sent}


def box(rng, dim, lo, hi, axis=None):
    b = [[], []]
    for _ in range(dim):
        x, y = sorted((rng.randint(lo, hi), rng.randint(lo, hi)))
        b[0].append(x)
        b[1].append(y)
    return b[0] + b[1]


def body(c):
    rng = random.Random(c.seed * 13 + 3)
    jobs = []
    # all triangulations of 4 points of a 3x3 lattice (spread, so that boxes fit between)
    lat = [[3 * x, 3 * y] for x in range(3) for y in range(3)]
    for S in itertools.combinations(lat, 4):
        if any((b[0] - a[0]) * (d[1] - a[1]) != (b[1] - a[1]) * (d[0] - a[0]) for a, b, d in itertools.combinations(S, 3)):
            for _ in range(c.scale(6, 60)):
                size = rng.choice([2, 3, 3, 4])
                jobs.append((2, [list(x) for x in S], rng.randrange(size), size, [box(rng, 2, -4, 10) for _ in range(size)], 0.5, 0.0))
    for _ in range(c.scale(900, 12000)):
        dim = rng.choice([2, 3])
        side = rng.choice([4, 8, 10] if dim == 2 else [2, 4, 5])
        n = rng.randint(dim + 2, 20 if dim == 2 else 14)
        s = {tuple(rng.randint(0, side) for _ in range(dim)) for _ in range(n)}
        if len(s) < dim + 2:
            continue
        P = [list(x) for x in s]
        rng.shuffle(P)
        size = rng.choice([2, 3, 3, 4, 5])
        rank = rng.randrange(size)
        kind = rng.random()
        if kind < 0.5:
            ext = [box(rng, dim, -side // 2, side + side // 2) for _ in range(size)]
        else:  # slabs as in a parallel run: neighbours overlap this block's borders
            ax = rng.randrange(dim)
            ext = []
            for q in range(size):
                b = [-1] * dim + [side + 1] * dim
                b[ax] = (q - rank) * side + rng.randint(-1, 1)
                b[ax + dim] = (q - rank + 1) * side + rng.randint(-1, 1)
                ext.append(b)
            if dim == 2 and side == 10 or dim == 3 and side == 5:
                for q in range(size):
                    if abs(q - rank) > 1:
                        ext[q] = ext[rank]
        jobs.append((dim, P, rank, size, ext, rng.choice([0.25, 1.0, 128.0]), rng.choice([0.0, -3.0, 17.0])))
    res = core.pmap(run, jobs, timeout=60)
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, res)):
        v = c.outcome(r, "case-%d" % n, j)
        if v is None or not v["T"]:
            continue
        cases.append(v)
        keys.append("case-%d" % n)
    c.extra["exported"] = sum(len(s) for v in cases for s in v["sent"])
    for a in range(0, len(cases), 4000):
        c.cases("Enqueue", cases[a:a + 4000], keys[a:a + 4000], timeout=800)
    c.assumptions += ["lattice inputs: a ball that meets a box does so by more than the round-off of the code, except for exact touching, which may count or not"]


core.main("C03", body)
