"""C04: gathering the local meshes on rank 0 (aggregate under several schedules), judged by Gather.tla."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi


def block(rng, dim, ncell, unused, shift, shared):
    """A random local mesh: cells of a fan / strip, unused vertices, vertices in any order, any orientation."""
    if dim == 2:
        P = [[x, y] for x in range(ncell // 2 + 2) for y in range(2)]
        T = []
        for x in range(ncell // 2 + 1):
            a = 2 * x
            T += [[a, a + 2, a + 1], [a + 1, a + 2, a + 3]]
    else:
        P, T = [[0, 0, 0], [0, 0, 1]], []
        for k in range(ncell + 1):
            P.append([1 + k, (k * k) % 5 + 1 + k % 2, k % 2])
        ring = list(range(2, len(P)))
        T = [[0, 1, a, b] for a, b in zip(ring, ring[1:])]
        # exactly flat cells are not meshes
        ok = []
        for t in T:
            m = [[P[v][d] - P[t[0]][d] for d in range(3)] for v in t[1:]]
            det = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
                   + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
            if det:
                ok.append(t)
        T = ok
    T = T[:ncell]
    s = [0 if shared else shift] + [0] * (dim - 1)
    P = [[x + y for x, y in zip(p, s)] for p in P]
    P += [[-7 - k] + [k] * (dim - 1) for k in range(unused)]
    order = list(range(len(P)))
    rng.shuffle(order)
    inv = {o: n for n, o in enumerate(order)}
    P = [P[o] for o in order]
    T = [[inv[v] for v in t] for t in T]
    for t in T:
        if rng.random() < 0.3:
            t[0], t[1] = t[1], t[0]
    rng.shuffle(T)
    return [P, T]


def run(job):
    n, dim, blocks, semantics, seed, scale = job
    import numpy as np
    from SeismicMesh import migration

    def target(comm):
        P, T = blocks[comm.rank]
        p = np.array(P, dtype=float).reshape(-1, dim) * scale
        t = np.array(T, dtype=int).reshape(-1, dim + 1)
        gp, gt = migration.aggregate(p, t, comm, comm.size, comm.rank, dim=dim)
        if comm.rank == 0:
            return np.asarray(gp, dtype=float).tolist(), np.asarray(gt).tolist()
        return bool(np.ndim(gp) == 0 and np.ndim(gt) == 0)
    w = fakempi.run_world(n, target, semantics, seed, timeout=60)
    if not w.ok:
        return ("bad", w.describe())
    P, T = w.values()[0]
    ip = np.rint(np.array(P) / scale).astype(int).reshape(-1, dim)
    back = ip * scale
    if not np.array_equal(back, np.array(P).reshape(-1, dim)):
        return ("bad", "coordinates are altered")
    return ("case", {"n": n, "blocks": [{"P": b[0], "T": [[v + 1 for v in t] for t in b[1]]} for b in blocks],
                     "P": ip.tolist(), "T": [[v + 1 for v in t] for t in T],
                     "others": sum(not v for v in w.values()[1:])})


def body(c):
    rng = random.Random(c.seed * 17 + 4)
    jobs = []
    kinds = [(0, 3), (1, 0), (2, 0), (1, 2), (3, 1), (7, 0)]
    for n in (1, 2, 3, 4, 5):
        combos = list(itertools.product(kinds, repeat=n))
        if len(combos) > c.scale(130, 700):
            combos = rng.sample(combos, c.scale(130, 700))
        for combo in combos:
            dim = rng.choice([2, 3])
            shared = rng.random() < 0.3
            bl = [block(rng, dim, k, u, 20 * r, shared) for r, (k, u) in enumerate(combo)]
            if any(k and not b[1] for b, (k, u) in zip(bl, combo)):
                continue
            jobs.append((n, dim, bl, rng.choice(["buffered", "sync", "mixed"]), rng.randint(0, 999), rng.choice([1.0, 0.25])))
    res = core.pmap(run, jobs, timeout=80)
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, res)):
        key = "case-%d" % n
        v = c.outcome(r, key, j)
        if v is None:
            continue
        if v[0] == "bad":
            c.violation(key + ":" + v[1][:60], v[1], {"job": j})
        else:
            cases.append(v[1])
            keys.append(key)
    if cases:
        c.cases("Gather", cases, keys, timeout=800)


core.main("C04", body)
