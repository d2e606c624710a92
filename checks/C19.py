"""C19: mesh clean-up (CleanUp.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core


def vol(P, c):
    a = P[c[0]]
    m = [[x - y for x, y in zip(P[v], a)] for v in c[1:]]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def rand_case(rng, dim, kind):
    lo = rng.choice((0, -2, -3))
    if kind == "grid":        # triangulated grid of which every cell has vertices of its own
        n = rng.randint(1, 3) if dim == 2 else rng.randint(1, 2)
        base = []
        for q in itertools.product(range(n), repeat=dim):
            for perm in itertools.permutations(range(dim)):
                v, cell = list(q), [tuple(q)]
                for d in perm:
                    v[d] += 1
                    cell.append(tuple(v))
                base.append([tuple(x + lo for x in y) for y in cell])
    else:
        L = list(itertools.product(range(lo, lo + 4), repeat=dim))
        base = []
        while len(base) < rng.randint(1, 8):
            c = rng.sample(L, dim + 1)
            base.append(c)
    P, T = [], []
    share = rng.random()
    for c in base + [rng.choice(base) for _ in range(rng.randint(0, 3))]:
        cell = []
        for x in c:
            old = [k for k, y in enumerate(P) if y == x and k not in cell]
            if old and rng.random() < share:
                cell.append(rng.choice(old))
            else:
                P.append(x)
                cell.append(len(P) - 1)
        rng.shuffle(cell)
        T.append(cell)
    for _ in range(rng.randint(0, 3)):     # unused vertices, some of them copies
        P.append(rng.choice(P) if rng.random() < .6 else tuple(rng.randint(lo - 1, lo + 5) for _ in range(dim)))
    ids = list(range(len(P)))
    rng.shuffle(ids)
    P2 = [None] * len(P)
    for k, x in enumerate(P):
        P2[ids[k]] = list(x)
    return {"kind": "fix", "dim": dim, "unused": rng.random() < .5, "orient": rng.random() < .75, "P": P2,
            "T": [[ids[v] for v in c] for c in T]}


def run_fix(job):
    import numpy as np
    from SeismicMesh import geometry as g
    case, mode, seed, u = job
    case = dict(case)
    rng = random.Random(seed)
    dim = case["dim"]
    P = np.array(case["P"], dtype=float) * u
    kw = {"dim": dim, "delete_unused": case["unused"], "fix_orientation": case["orient"]}
    if mode == "zeros":            # zero of either sign
        P[(P == 0) & (np.array([[rng.random() < .5 for _ in r] for r in P]))] = -0.0
    elif mode == "near":           # vertices that coincide up to a wide tolerance
        ext = (np.array(case["P"]).max(0) - np.array(case["P"]).min(0)).max()
        kw["ptol"] = 1.0 / ext
        P = P + u * np.array([[rng.uniform(-.05, .05) for _ in r] for r in P])
        # the extent, and so the tolerance, stays that of the lattice up to 10 %
    T = np.array(case["T"], dtype=rng.choice(("int64", "int32")))
    P0, T0 = P.copy(), T.copy()

    def out(p, t):
        return [[int(round(x / u)) for x in r] for r in p.tolist()], [[int(v) for v in r] for r in t.tolist()]
    p, t, j = g.fix_mesh(P, T, **kw)
    if not (np.array_equal(P, P0) and np.array_equal(T, T0)):
        raise AssertionError("arguments were modified")
    case["p1"], case["t1"] = out(p, t)
    case["j1"] = [int(x) for x in np.ravel(j).tolist()] if not case["unused"] else []
    p_, t_ = p.copy(), t.copy()
    q, s, _ = g.fix_mesh(p, t, **kw)
    # the same mesh: cells as sets of positions, to the last bit (the numbering may change)
    geo = lambda p, t: (sorted(map(tuple, p.tolist())), sorted(sorted(map(tuple, p[r].tolist())) for r in t))  # noqa
    case["same2"] = geo(q, s) == geo(p_, t_) or mode == "near"
    pi = list(range(len(P)))
    rng.shuffle(pi)
    inv = [0] * len(P)
    for a, b in enumerate(pi):
        inv[b] = a
    ci = list(range(len(T)))
    rng.shuffle(ci)
    q, s, _ = g.fix_mesh(P[pi], np.array([[inv[v] for v in T0[k]] for k in ci]), **kw)
    case["p2"], case["t2"] = out(q, s)
    return case


def run_rows(job):
    import numpy as np
    from SeismicMesh import geometry as g
    A, dt = job
    a = np.array(A, dtype=dt)
    B, I, J = g.unique_rows(a, True, True)
    B1, I1 = g.unique_rows(a, True)
    B2, J2 = g.unique_rows(a, return_inverse=True)
    B3 = g.unique_rows(a)
    L = lambda b: [[int(x) for x in r] for r in b.tolist()]  # noqa
    if not (np.array_equal(B, B1) and np.array_equal(B, B2) and np.array_equal(B, B3) and np.array_equal(I, I1) and np.array_equal(J, J2)):
        raise AssertionError("the values depend on what else is asked for")
    return {"kind": "rows", "A": A, "B": L(B), "I": [int(x) for x in np.ravel(I)], "J": [int(x) for x in np.ravel(J)]}


def run(job):
    return run_fix(job[1:]) if job[0] == "fix" else run_rows(job[1:])


def body(c):
    rng = random.Random(c.seed + 19)
    jobs = []
    while len(jobs) < c.scale(1200, 12000):
        dim = rng.choice((2, 3))
        case = rand_case(rng, dim, rng.choice(("grid", "any")))
        ext = max(max(x[d] for x in case["P"]) - min(x[d] for x in case["P"]) for d in range(dim))
        mode = rng.choice(("exact", "zeros", "near"))
        if mode == "near" and ext * 1.1 > 5:
            mode = "exact"
        jobs.append(("fix", case, mode, rng.randrange(10**9), rng.choice((1.0, .25, 1e-3, 1000.0)) if mode != "zeros" else 1.0))
    for _ in range(c.scale(200, 2000)):
        w = rng.randint(1, 4)
        jobs.append(("rows", [[rng.randint(-2, 2) for _ in range(w)] for _ in range(rng.randint(1, 30))],
                     rng.choice(("int64", "int32", "float64"))))
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, core.pmap(run, jobs, timeout=60))):
        key = "%s%d" % (j[0], n) + (":%s:%s" % (j[2], str(j[1]["T"])[:80]) if j[0] == "fix" else "")
        v = c.outcome(r, key, {"job": j})
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.cases("CleanUp", cases, keys, timeout=850)


core.main("C19", body)
