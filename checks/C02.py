"""C02: the ghost exchange delivers exactly what the neighbours export, and owned vertices are conserved.

A: every table of Exchange.tla, with what TLC says must be received, is replayed into enqueue + exchange.
B: every iteration of real parallel mesh generations is judged by GhostTrace.tla."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import json

import core
import fakempi
import par


# ---------------------------------------------------------------- A
def cell(dim, axis, rank, cls, k):
    """A cell of class 1 below, 2 above, 3 both, 4 none in the block [10 rank, 10 rank + 10]."""
    u = 10.0 * rank
    side = 40.0 * (4 * (k - 1) + cls)
    a = {1: [(u + 0.25, 0), (u + 0.75, 0.25), (u + 0.5, 0.5)], 2: [(u + 9.25, 0), (u + 9.75, 0.25), (u + 9.5, 0.5)],
         3: [(u + 0.5, 0), (u + 9.5, 0), (u + 5, 4)], 4: [(u + 4.5, 0), (u + 5.5, 0.25), (u + 5, 1)]}[cls]
    pts = []
    for along, lat in a:
        p = [0.0] * dim
        p[axis] = along
        p[(axis + 1) % dim] = lat + side
        pts.append(p)
    if dim == 3:
        p = list(pts[0])
        p[axis] = (a[0][0] + a[1][0]) / 2
        p[(axis + 2) % 3] = (3.0 if cls == 3 else 0.25)
        pts.append(p)
    return pts


def replay(job):
    n, table, dim, axis, semantics, seed = job
    import numpy as np
    from SeismicMesh import migration
    extents = []
    for r in range(n):
        e = [-1e4] * dim + [1e4] * dim
        e[axis], e[axis + dim] = 10.0 * r - 1, 10.0 * r + 11
        extents.append(e)
    names = {}
    pts, cells = [], []
    for r in range(n):
        P, T = [], []
        for cls, cnt in list(enumerate(table[r], 1)) + [(4, 1)]:
            for k in range(1, cnt + 1):
                q = cell(dim, axis, r, cls, k)
                for x in q:
                    names[tuple(x)] = (r, cls, k)
                P += q
                T.append(list(range(len(P) - dim - 1, len(P))))
        pts.append(np.array(P))
        cells.append(np.array(T))

    def target(comm):
        r = comm.rank
        ex = migration.enqueue(extents, pts[r], cells[r], r, n, dim=dim)
        g = np.asarray(migration.exchange(comm, r, n, ex, dim=dim))
        return g.reshape(-1, dim).tolist()
    w = fakempi.run_world(n, target, semantics, seed, timeout=50)
    if not w.ok:
        return ("bad", w.describe())
    out = []
    for r, g in enumerate(w.values()):
        got = [names.get(tuple(x)) for x in g]
        if None in got:
            return ("bad", "rank %d receives a vertex that no block has" % r)
        if len({tuple(x) for x in g}) != len(g):
            return ("bad", "rank %d receives a vertex twice" % r)
        for c in set(got):
            if got.count(c) != dim + 1:
                return ("bad", "rank %d receives %d of the %d vertices of a cell" % (r, got.count(c), dim + 1))
        out.append(sorted(set(got)))
    return ("got", out)


def tables(c, rng):
    jobs, exp = [], []
    for n, mx in [(2, 2), (3, 1), (4, 1)] + ([(3, 2), (5, 1)] if c.thorough else []):
        if n < 4:
            c.add(core.tlc("Exchange", cfg="ExchangeLive.cfg", consts=["N = %d" % n, "Max = 1", "Emit = FALSE"], timeout=600))
        r = c.add(core.tlc("Exchange", consts=["N = %d" % n, "Max = %d" % mx, "Emit = TRUE"], timeout=800))
        got = {}
        for line in r.out.splitlines():
            if line.startswith('"T '):
                d = json.loads(json.loads(line)[2:])
                got[json.dumps(d["table"])] = [sorted(tuple(x) for x in g) for g in d["got"]]
        c.extra.setdefault("tables", []).append([n, mx, len(got)])
        for t in sorted(got):
            for dim in (2, 3):
                if n >= 5 and rng.random() > 0.25:
                    continue
                jobs.append((n, json.loads(t), dim, rng.randrange(dim), rng.choice(["buffered", "sync", "mixed"]), rng.randint(0, 999)))
                exp.append(got[t])
    res = core.pmap(replay, jobs, timeout=100)
    for j, r, e in zip(jobs, res, exp):
        key = "table-%d-%s-%dD" % (j[0], json.dumps(j[1]).replace(" ", ""), j[2])
        v = c.outcome(r, key, j)
        if v is None:
            continue
        c.traces += 1
        if v[0] == "bad":
            c.violation(key + ":" + v[1], v[1], {"job": j})
        elif [list(map(tuple, g)) for g in v[1]] != e:
            c.violation(key + ":delivery", "exchange delivers other vertices than exported",
                        {"job": j, "expected": e, "received": v[1]})
    c.sample({"job": jobs[5], "expected": exp[5]})


# ---------------------------------------------------------------- B
def iterations(job):
    """The iterations of a run as cases of GhostTrace.tla."""
    sc = job[0]
    import numpy as np
    w = par.world(job)
    if any(r["end"] != "ok" for r in w["ranks"]):
        return ("end", [[r["end"], str(r["value"])[:200]] for r in w["ranks"]])
    n, dim = sc["ranks"], sc["dim"]
    its = [par.iterations(r["log"]) for r in w["ranks"]]
    if len({len(x) for x in its}) != 1:
        return ("end", "the ranks do different numbers of iterations: %s" % [len(x) for x in its])
    cases = []

    def cat(a):
        return np.concatenate(a, axis=0) if a else np.zeros((0, dim))
    for k in range(len(its[0])):
        ids = {}

        def num(p):
            return [ids.setdefault(tuple(x), len(ids)) for x in np.asarray(p, dtype=float).reshape(-1, dim).tolist()]
        case = {"n": n, "own": [], "sent": [], "ghost": [], "next": [], "disp": [], "last": k + 1 == len(its[0])}
        for r in range(n):
            it = its[r][k]
            own = cat(it["own"])
            case["own"].append(num(own))
            case["sent"].append([[d, num(p)] for d, p in it["sent"]])
            case["ghost"].append(num(cat(it["ghost"])))
            nx, disp = 0, []
            if not case["last"]:
                q = cat(its[r][k + 1]["own"])
                nx = len(q)
                _, first = np.unique(own, axis=0, return_index=True)
                u = own[np.sort(first)] if its[r][k]["list"] is None else its[r][k]["list"]
                m = min(len(u), len(q))
                d = np.sqrt(((u[:m] - q[:m]) ** 2).sum(1)) / sc["h0"]
                disp = [int(min(1e6, round(1000 * x))) if x == x else 10**6 for x in d]
            case["next"].append(nx)
            case["disp"].append(disp)
        cases.append(case)
    return ("cases", cases)


def runs(c, rng):
    jobs = []
    for dim in (2, 3):
        for ranks in (2, 3, 4, 5) if dim == 2 else (2, 3, 4):
            for k in range(c.scale(3, 14)):
                sc = par.scenario(rng, ranks, dim, domain=rng.choice(["box", "ell", "hole"]), iters=c.scale(4, 8),
                                  size=rng.choice(["const", "call", "grid"]), points=rng.random() < 0.4)
                jobs.append((sc, rng.choice(["buffered", "sync", "mixed"]), k, True))
    # blocks far from each other have nothing to exchange
    for ranks in (2, 3):
        sc = par.scenario(rng, ranks, 2, domain="ell", size="call", iters=3)
        jobs.append((sc, "sync", 1, True))
    res = core.pmap(iterations, jobs, procs=6, timeout=130, chunk=3)
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, res)):
        key = "run-%d" % n
        v = c.outcome(r, key, j)
        if v is None:
            continue
        if v[0] == "end":
            c.violation(key + ":end", "a parallel run does not end: %s" % (v[1],), {"job": j})
            continue
        cases += v[1]
        keys += ["%s-it%d" % (key, k) for k in range(len(v[1]))]
    c.extra["iterations"] = len(cases)
    c.extra["ghosts"] = sum(len(g) for x in cases for g in x["ghost"])
    if cases:
        c.cases("GhostTrace", cases, keys, timeout=800)


def body(c):
    rng = random.Random(c.seed * 11 + 2)
    tables(c, rng)
    runs(c, rng)
    c.assumptions += ["the triangulation handed the vertices is the one of the extension module (recorded at its insert)",
                      "from an iteration to the next a rank keeps the order in which its triangulation lists its own vertices"]


core.main("C02", body, pre=par.install)
