"""C23: deletion of poor boundary cells, detection of overlaps and the linter (Repair.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import planar


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def fits(P, t):
    """within the integer range of the specification"""
    a, b, c = (P[v] for v in t)
    return d2(a, b) * d2(b, c) * d2(a, c) <= 520000 and abs(planar.orient(a, b, c)) <= 22 and min(d2(a, b), d2(b, c), d2(a, c)) > 0


def quality(P, t):
    a, b, c = (P[v] for v in t)
    D = abs(planar.orient(a, b, c))
    e = [d2(a, b) ** .5, d2(b, c) ** .5, d2(a, c) ** .5]
    return 4 * D * D / (e[0] * e[1] * e[2] * sum(e))


def orient3(P):
    m = [[x - y for x, y in zip(p, P[0])] for p in P[1:]]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def mesh2(rng, extra, flat):
    while True:
        P, T = planar.mesh(rng, nx=rng.randint(1, 4), ny=rng.randint(1, 4), step=rng.choice((1, 2, 3)))
        T = [t for t in T if fits(P, t)]
        if flat and T:            # flat or thin cells at the boundary
            lim = rng.choice((0, 0, 1))
            thin = [list(t) for t in itertools.combinations(range(len(P)), 3)
                    if abs(planar.orient(*[P[v] for v in t])) <= lim and fits(P, t)]
            T += rng.sample(thin, min(len(thin), rng.randint(1, 5)))
        for _ in range(extra):
            t = rng.sample(range(len(P)), 3) if len(P) > 2 else []
            if t and fits(P, t) and planar.orient(*[P[v] for v in t]) and sorted(t) not in [sorted(x) for x in T]:
                if planar.orient(*[P[v] for v in t]) < 0:
                    t.reverse()
                T.append(t)
        if len({tuple(sorted(t)) for t in T}) == len(T) and len(T) > 2:
            rng.shuffle(T)
            break
    if rng.random() < .3:
        P = P + [[50, 50]]       # an unused vertex
    return P, T


def mesh3(rng, extra):
    n = rng.randint(1, 2)
    L = list(itertools.product(range(n + 1), range(2), range(2)))
    T = []
    for q in range(n):
        for perm in itertools.permutations(range(3)):
            v, cell = [q, 0, 0], [(q, 0, 0)]
            for d in perm:
                v[d] += 1
                cell.append(tuple(v))
            T.append([L.index(x) for x in cell])
    for _ in range(extra):
        t = rng.sample(range(len(L)), 4)
        if orient3([L[v] for v in t]) and sorted(t) not in [sorted(x) for x in T]:
            T.append(t)
    P = [[2 * x for x in p] for p in L]
    for t in T:
        if orient3([P[v] for v in t]) < 0:
            t[0], t[1] = t[1], t[0]
    ids = list(range(len(P)))
    rng.shuffle(ids)
    Q = [None] * len(P)
    for k, x in enumerate(P):
        Q[ids[k]] = x
    T = [[ids[v] for v in t] for t in T]
    rng.shuffle(T)
    return Q, T


def run(job):
    import numpy as np
    from SeismicMesh import geometry as g
    kind, dim, P, T, thr, u, off = job
    p, t = np.array(P, dtype=float) * u + off, np.array(T)
    p0, t0 = p.copy(), t.copy()
    o = {"kind": kind, "dim": dim, "P": P, "T": T, "thr": thr, "p1": [], "t1": [], "pairs": []}
    if kind == "overlap":
        o["pairs"] = [[int(a), int(b)] for a, b in g.do_any_overlap(p, t, dim=dim)]
    else:
        if kind == "delete":
            q, s = g.delete_boundary_entities(p, t, dim=dim, min_qual=thr / 250, verbose=0)
        else:
            q, s = g.linter(p, t, dim=dim, min_qual=thr / 250)
        o["p1"] = [[int(round((x - off) / u)) for x in r] for r in q.tolist()]
        o["t1"] = [[int(v) for v in r] for r in s.tolist()]
        if [list(map(float, r)) for r in o["p1"]] != [[round((x - off) / u, 6) for x in r] for r in q.tolist()]:
            raise AssertionError("vertices are moved")
    if not (np.array_equal(p, p0) and np.array_equal(t, t0)):
        raise AssertionError("arguments were modified")
    return o


def body(c):
    rng = random.Random(c.seed + 23)
    jobs = []
    while len(jobs) < c.scale(900, 9000):
        kind = rng.choice(("delete", "overlap", "linter"))
        dim = 2 if kind == "delete" or rng.random() < .7 else 3
        if dim == 2:
            P, T = mesh2(rng, 0 if kind == "delete" else rng.randint(0, 4), kind == "delete" and rng.random() < .5)
            thr = rng.choice((15, 25, 60, 120, 170, 200))
            if max(quality(P, t) for t in T) * 250 < thr + 30:
                continue
            if kind == "linter":
                # the second step must leave something
                good = [t for t in T if quality(P, t) * 250 > thr + 20]
                if len(good) < len(T) / 2 + 1:
                    continue
        else:
            P, T = mesh3(rng, rng.randint(0, 4))
            thr = 25
        jobs.append((kind, dim, P, T, thr, *rng.choice(((1.0, 0.0), (0.25, 0.0), (0.1, 0.3), (0.1, 0.0), (0.3, 1.7)))))
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, core.pmap(run, jobs, timeout=60))):
        key = "%s%d:%s:%s" % (j[0], n, j[1], str(j[3])[:80])
        if r[0] == "raise" and j[0] != "overlap" and "zero-size" in r[1]:
            continue            # nothing left
        v = c.outcome(r, key, {"job": j})
        if v is not None:
            cases.append(v)
            keys.append(key)
    if len(cases) < len(jobs) * .9:
        raise RuntimeError("too many empty results")
    c.cases("Repair", cases, keys, timeout=850)
    c.extra["kinds"] = {k: sum(x["kind"] == k for x in cases) for k in ("delete", "overlap", "linter")}
    c.extra["overlapping_pairs"] = sum(len(x["pairs"]) for x in cases)


core.main("C23", body)
