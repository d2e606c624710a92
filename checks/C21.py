"""C21: options are validated, and the number of iterations is the one requested (Loop.tla, Calls.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import par

DOMAIN = ("shape", "callable", "other")
BBOX = ("floats", "ints", "list", "missing")
SIZE = ("scalar", "callable", "object", "other")
VERB = (0, 1, 2, -1, -3)
ITERS = (1, 2, 3, 0, -1, -5)
H = (1.0, 0.0, -1.0, None)
GOOD = {"domain": "shape", "bbox": "floats", "shapebox": "floats", "size": "scalar", "sizebox": "floats", "h": 1.0, "verbose": 0,
        "iters": 2, "unknown": None}
CLASS = {"domain": DOMAIN, "bbox": BBOX, "shapebox": ("floats", "ints"), "size": SIZE, "sizebox": ("floats", "ints"), "h": H,
         "verbose": VERB, "iters": ITERS, "unknown": (None, "maxiter", "Verbose", "edge", "hmin", "fixed", "tol", "")}
VALID = {"seed": (0, 3), "perform_checks": (True, False), "pfix": (None, [[1.0, 1.0, 1.0]]), "axis": (0, 1), "delta_t": (.1, .3),
         "geps_mult": (.05, .1), "mesh_improvement": (True, False), "r0m_is_h0": (True, False), "subdomains": (None, "inner")}


def sgn(x):
    return 2 if x is None else (x > 0) - (x < 0)


def build(q):
    """arguments of a call"""
    import numpy as np
    import SeismicMesh as sm
    dim = q["dim"]
    L = q["L"][:dim]
    fl = tuple(b for x in L for b in (0.0, float(x)))
    it = tuple(b for x in L for b in (0, int(x)))
    shape = sm.Rectangle if dim == 2 else sm.Cube
    kw = {"verbose": q["verbose"], "max_iter": q["iters"]}
    if q["domain"] == "shape":
        d = shape(it if q["shapebox"] == "ints" else fl)
    elif q["domain"] == "callable":
        d = shape(fl).eval
        if q["bbox"] != "missing":
            kw["bbox"] = {"floats": fl, "ints": it, "list": list(fl)}[q["bbox"]]
    else:
        d = q["what"]
    h = q["h"]
    if q["size"] == "scalar":
        s = 1.0 if h is None else h
    elif q["size"] == "callable":
        def s(x):
            return np.full(len(x), 1.0)
        if h is not None:
            kw["h0"] = h
    elif q["size"] == "object":
        from scipy.interpolate import RegularGridInterpolator
        vs = [np.linspace(0, x, 5) for x in L]
        f = RegularGridInterpolator(vs, np.full([5] * dim, 1.0), bounds_error=False, fill_value=None)
        s = sm.SizeFunction(it if q["sizebox"] == "ints" else fl, f, hmin=1.0 if h is None else h)
    else:
        s = q["what"]
    if q["unknown"] is not None:
        kw[q["unknown"]] = 1.0
    for k, v in q["opts"].items():
        if k == "pfix" and v is not None:
            v = [x[:dim] for x in v]
        if k == "subdomains" and v is not None:
            v = [(sm.Disk([x / 2 for x in L], 1.2) if dim == 2 else sm.Ball([x / 2 for x in L], 1.2))]
        kw[k] = v
    return d, s, kw


def one(q, comm):
    import numpy as np
    import SeismicMesh as sm
    fakempi.LOG = []
    d, s, kw = build(q)
    try:
        if q["fn"] == "generate":
            sm.generate_mesh(d, s, comm=comm, **kw)
        else:
            r = np.random.RandomState(q["seed"])
            p = r.uniform(0, 1, (60, q["dim"])) * np.array(q["L"][:q["dim"]])
            sm.sliver_removal(p, d, s, comm=comm, **kw)
        e = "ok"
    except Exception as x:
        e = "refused"
        q["error"] = "%s: %s" % (type(x).__name__, str(x)[:80])
    log, fakempi.LOG = fakempi.LOG, None
    return e, sum(x[0] == "insert" and len(x[1]) > 0 for x in log), q.get("error")


def call(q):
    n = q["ranks"]
    if n == 1:
        r = [one(q, fakempi.serial())]
    else:
        w = fakempi.run_world(n, lambda comm: one(q, comm), "buffered", q["seed"], timeout=60)
        r = [w.outcome[k][1] if w.outcome[k][0] == "ok" else ("stuck", 0, str(w.outcome[k])[:100]) for k in range(n)]
    c = {"kind": "call", "fn": q["fn"], "dim": q["dim"], "domain": q["domain"], "bbox": q["bbox"], "shapebox": q["shapebox"],
         "size": q["size"], "sizebox": q["sizebox"], "verbose": q["verbose"], "iters": sgn(q["iters"]),
         "unknown": q["unknown"] is not None, "ends": [x[0] for x in r], "tri": max(x[1] for x in r)}
    c["hsign"] = 1 if q["h"] is None and q["size"] != "callable" else sgn(q["h"])
    c["errors"] = [str(x[2]) for x in r]
    return c


def loop(job):
    """the same scenario with different limits"""
    sc, limits, semantics = job
    ids, runs = {}, []
    for n in limits:
        sc["iters"] = n
        w = par.world((sc, semantics, n, True)) if sc["ranks"] > 1 else None
        if w is None:
            fakempi.LOG = []
            par.call(sc, fakempi.serial())
            logs, fakempi.LOG = [fakempi.LOG], None
        else:
            if any(r["end"] != "ok" for r in w["ranks"]):
                raise RuntimeError(str([[r["end"], str(r["value"])[:150]] for r in w["ranks"]]))
            logs = [r["log"] for r in w["ranks"]]
        ranks = []
        for log in logs:
            seq = []
            for it in par.iterations(log):
                b = b"".join(x.tobytes() for x in it["own"])
                seq.append(ids.setdefault(b, len(ids)))
            ranks.append(seq)
        runs.append({"n": n, "ranks": ranks})
    return {"kind": "loop", "runs": runs}


def queries(rng, c):
    def q(over, **kw):
        d = dict(GOOD, fn="generate", dim=2, L=[6, 8, 6], ranks=1, seed=rng.randint(0, 99), opts={}, what="a string")
        d.update(kw)
        d.update(over)
        if d["fn"] == "generate" and d["ranks"] > 1:
            d["L"] = [8, 16, 6]
        if d["fn"] == "sliver":
            d["opts"] = {}
            if "dim" not in kw:
                d["dim"] = 3
        d["what"] = rng.choice(["a string", None, 3.5 if d["domain"] == "other" and d["size"] != "other" else [1.0], (1.0, 2.0), {}])
        return d
    K = sorted(CLASS)
    out = []
    for fn in ("generate", "sliver"):
        for k in K:
            for v in CLASS[k]:
                for base in ({}, {"domain": "callable"}, {"size": "callable"}, {"size": "object"}):
                    out.append(q(dict(base, **{k: v}), fn=fn))
                if fn == "generate":
                    out.append(q({k: v}, ranks=2))
                    out.append(q({k: v, "size": "callable"}, ranks=2))
                    out.append(q({k: v}, dim=3))
    for a, b in itertools.combinations(K, 2):
        for v in CLASS[a]:
            for w in CLASS[b]:
                if v != GOOD[a] and w != GOOD[b]:
                    out.append(q({a: v, b: w}))
    for _ in range(c.scale(250, 3000)):
        o = {k: rng.choice(CLASS[k]) if rng.random() < .12 else GOOD[k] for k in K}
        o["domain"] = rng.choice(DOMAIN[:2]) if rng.random() < .9 else "other"
        o["size"] = rng.choice(SIZE[:3]) if rng.random() < .9 else "other"
        opts = {k: rng.choice(VALID[k]) for k in VALID if rng.random() < .4}
        out.append(q(o, opts=opts, dim=rng.choice((2, 2, 3)), ranks=rng.choice((1, 1, 1, 2, 3))))
    for _ in range(c.scale(60, 600)):
        o = {k: rng.choice(CLASS[k]) if rng.random() < .12 else GOOD[k] for k in K}
        out.append(q(o, fn="sliver", dim=rng.choice((3, 3, 2))))
    return out


def body(c):
    for r, m, f in ((1, 4, "TRUE"), (2, 4, "TRUE"), (3, 5, "TRUE"), (4, 3, "FALSE"), (3, 1, "TRUE")):
        c.add(core.tlc("Loop", consts=["R = %d" % r, "MaxIter = %d" % m, "CanFail = %s" % f], timeout=300))
    if c.thorough:
        for r, m in ((4, 6), (5, 4)):
            c.add(core.tlc("Loop", consts=["R = %d" % r, "MaxIter = %d" % m, "CanFail = TRUE"], timeout=600))
    rng = random.Random(c.seed * 17 + 21)
    cases, keys = [], []
    qs = queries(rng, c)
    for n, (q, r) in enumerate(zip(qs, core.pmap(call, qs, timeout=120))):
        key = "call:%s:%dd:%d:%s:%s" % (q["fn"], q["dim"], q["ranks"], {k: q[k] for k in sorted(GOOD) if q[k] != GOOD[k]}, q["opts"])
        v = c.outcome(r, key, q)
        if v is not None:
            cases.append(v)
            keys.append(key)
    jobs = []
    for k in range(c.scale(40, 300)):
        sc = par.scenario(rng, domain=rng.choice(["box", "hole", "ell"]), size=rng.choice(["const", "call", "grid"]), points=rng.random() < .3)
        if rng.random() < .5:
            sc["ranks"] = 1
            sc["L"][sc["axis"]] = 9.0
        top = 8 if sc["dim"] == 2 else 5
        jobs.append((sc, sorted({1, 2, rng.randint(3, top), top}), rng.choice(["buffered", "sync", "mixed"])))
    for n, (j, r) in enumerate(zip(jobs, core.pmap(loop, jobs, procs=6, timeout=200))):
        key = "loop%d:%s" % (n, j)
        v = c.outcome(r, key, j)
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.extra.update(calls=len(qs), loops=len(jobs), refused=sum(x["kind"] == "call" and "refused" in x["ends"] for x in cases))
    c.cases("Calls", cases, keys, timeout=850)


core.main("C21", body, pre=par.install)
