"""C20: sliver removal (Sliver.tla, SliverTrace.tla, MeshCase.tla)."""
import contextlib
import io
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import meshing
import shapes


def install():
    """Record the listings of the triangulation (before SeismicMesh is imported)."""
    import numpy as np
    import _delaunay_class3 as m3
    base = m3.DelaunayTriangulation3

    class Recorder(base):
        def get_finite_vertices(self):
            v = super().get_finite_vertices()
            fakempi.note("list", np.array(v, dtype=float).reshape(-1, 3))
            return v

        def get_finite_cells(self):
            t = super().get_finite_cells()
            fakempi.note("cells", np.array(t).reshape(-1, 4))
            return t

        def insert(self, *a):
            fakempi.note("changed")
            return super().insert(*a)

        def move(self, *a):
            fakempi.note("changed")
            return super().move(*a)

        def remove(self, *a):
            fakempi.note("changed")
            return super().remove(*a)
    Recorder.__name__ = base.__name__
    m3.DelaunayTriangulation3 = Recorder


def angles(p, t):
    """least and greatest dihedral angle of every cell, in millionths of degrees (not by the code under test)"""
    import numpy as np
    v = p[t]
    out = []
    for a, b, c, d in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2), (1, 2, 0, 3), (1, 3, 0, 2), (2, 3, 0, 1)):
        e = v[:, b] - v[:, a]
        e = e / np.maximum(np.linalg.norm(e, axis=1), 1e-300)[:, None]
        u, w = v[:, c] - v[:, a], v[:, d] - v[:, a]
        u = u - (u * e).sum(1)[:, None] * e
        w = w - (w * e).sum(1)[:, None] * e
        out.append(np.arctan2(np.linalg.norm(np.cross(u, w), axis=1), (u * w).sum(1)))
    a = np.rint(np.degrees(np.array(out)) * 1e6).astype(int)
    return a.min(0), a.max(0)


def start(sc):
    """the points given to sliver removal"""
    import numpy as np
    r = np.random.RandomState(sc["seed"])
    d, _ = meshing.domain(dict(sc, tree=meshing.padded_box(sc)))
    h = sc["h0"] * sc["scale"]
    if sc["start"] == "mesh":
        p, _ = meshing.generate(sc)
        return p
    bb = np.array(d.bbox).reshape(-1, 2)
    if sc["start"] == "jitter":                  # a body centred lattice, disturbed, and points on the boundary
        ax = [np.arange(lo + h / 4, hi, h) for lo, hi in bb]
        g = np.stack([x.ravel() for x in np.meshgrid(*ax, indexing="ij")], 1)
        p = np.vstack([g, g + h / 2])
        return p[d.eval(p) < 0] + 0.0 if not sc["jit"] else (lambda q: q[d.eval(q) < 0])(p + r.uniform(-1, 1, p.shape) * sc["jit"] * h)
    n = sc["n"]                                  # random points
    p = bb[:, 0] + r.uniform(0, 1, (n * 3, 3)) * (bb[:, 1] - bb[:, 0])
    return p[d.eval(p) < 0][:n]


def boundary(t):
    from collections import Counter
    f = Counter()
    for c in t.tolist():
        for k in range(4):
            f[tuple(sorted(c[:k] + c[k + 1:]))] += 1
    return sorted({v for k, n in f.items() if n == 1 for v in k})


def run(sc):
    import numpy as np
    import SeismicMesh as sm
    h = sc["h0"] * sc["scale"]
    p0 = start(sc)
    d, _ = meshing.domain(dict(sc, tree=meshing.padded_box(sc)))     # what is padded
    dom, _ = meshing.domain(sc)                                          # what the user gives
    f, o = meshing.size(sc, dom.bbox)
    kw = dict(sc["kw"], **o)
    given = p0
    todo = 2 if sc["twice"] else 1
    cases = []
    for _ in range(todo):
        before = given.copy()
        fakempi.LOG = []
        txt = io.StringIO()
        with contextlib.redirect_stdout(txt):
            p, t = sm.sliver_removal(given, dom, f, comm=fakempi.serial(), verbose=1, **kw)
        log, fakempi.LOG = fakempi.LOG, None
        txt = txt.getvalue()
        if not np.array_equal(before, given):
            raise AssertionError("the points given were modified")
        ids = {}

        def num(q):
            return [ids.setdefault((x + 0.0).tobytes(), len(ids)) for x in np.ascontiguousarray(q)]
        its, now = [], {}
        for e in log:
            if e[0] == "changed":
                now = {}
            elif e[0] in ("list", "cells"):
                now[e[0]] = e[1]
                if len(now) == 2:
                    its.append((now["list"], now["cells"], num(now["list"])))
                    now = {}
        its = [x for k, x in enumerate(its) if k == 0 or x[2] != its[k - 1][2]]
        lo = int(round(kw.get("min_dh_angle_bound", 10.0) * 1e6))
        hi = int(round(kw.get("max_dh_angle_bound", 180.0) * 1e6))
        geps = kw.get("geps_mult", 0.1) * h

        def near(q, tt, nn):
            mn, mx = angles(q, tt)
            k = np.where((mn < lo + 100000) | (mx > hi - 100000))[0] if len(tt) else []
            return [[[nn[v] for v in tt[j]], int(mn[j]), int(mx[j])] for j in k]
        c = {"max": kw.get("max_iter", 50), "lo": lo, "hi": hi, "tol": 3, "it": []}
        for k, (q, tt, nn) in enumerate(its):
            dist = d.eval(q[tt].mean(1))
            tin = tt[dist < -geps + 1e-9 * h]
            nxt = set(its[k + 1][2]) if k + 1 < len(its) else set(nn)
            bnd = [nn[v] for v in boundary(tin)] if kw.get("preserve") else []
            c["it"].append({"n": len(q), "cells": near(q, tin, nn), "gone": sorted(set(nn) - nxt),
                            "came": sorted(nxt - set(nn)), "bnd": bnd})
        q, tt, nn = its[-1]
        dist = d.eval(q[tt].mean(1))
        sure = {frozenset(nn[v] for v in x) for x in tt[dist < -geps - 1e-9 * h]}
        may = {frozenset(nn[v] for v in x) for x in tt[dist < -geps + 1e-9 * h]}
        on = num(p)
        oc = {frozenset(on[v] for v in x) for x in t}
        c["nin"] = len({x.tobytes() for x in np.ascontiguousarray(before + 0.0)})
        fail = "FAILURE" in txt
        c["said"] = "failure" if fail else "success" if "no slivers detected" in txt else "other"
        c["out"] = {"n": len(p), "new": len(set(on) - set(nn)), "lost": len(sure - oc) + len(oc - may) + len(t) - len(oc),
                    "sign": int(sum(meshing.exact_sign(p.tolist(), x) < 0 for x in t.tolist())), "cells": near(p, t, on)}
        m = meshing.case(p, t, h, random.Random(sc["seed"]), probes=10)
        cases.append((c, m))
        given = p
    return cases


def scenario(rng):
    sc = meshing.scenario(rng, dim=3, size="const", callable=False, opts={}, u=rng.choice((1.5, 2.0, 2.5)))
    sc["iters"] = rng.choice((5, 10, 20))
    sc["start"] = rng.choice(("mesh", "jitter", "jitter", "random"))
    sc["jit"] = rng.choice((0.02, 0.1, 0.2, 0.3))
    if sc["start"] == "random":                  # few points of a thin domain may give no cells at all
        sc["tree"] = meshing.rbox(rng, 3, -2, 2, 2) if rng.random() < .5 else meshing.rball(rng, 3, 1, (2, 2))
    sc["n"] = rng.choice((40, 80, 150))
    if rng.random() < .4:
        sc["size"] = rng.choice(("call", "grid"))
        if rng.random() < .6:
            meshing.pad(rng, sc)
            sc["u"] = min(sc["u"], 2.0)
    kw = {"max_iter": rng.choice((1, 2, 3, 5, 8, 20, 40))}
    if rng.random() < .7:
        kw["min_dh_angle_bound"] = rng.choice((0.5, 2.0, 5.0, 10.0, 15.0, 25.0))
    if rng.random() < .4:
        kw["max_dh_angle_bound"] = rng.choice((179.0, 175.0, 170.0, 150.0, 140.0))
    if rng.random() < .3:
        kw["gamma"] = rng.choice((0.9, 0.8, 1.1))
    if rng.random() < .25:
        kw["preserve"] = True
    if rng.random() < .2:
        kw["geps_mult"] = rng.choice((0.01, 0.05, 0.2))
    if sc["start"] == "random":
        kw["max_iter"] = min(kw["max_iter"], 5)
    sc["kw"] = kw
    sc["twice"] = rng.random() < .3
    return sc


def body(c):
    for m, b in ((1, 3), (6, 5)) if not c.thorough else ((1, 3), (2, 3), (20, 10)):
        c.add(core.tlc("Sliver", cfg="SliverLoop.cfg", consts=["MaxIter = %d" % m, "MaxBad = %d" % b], timeout=300))
    rng = random.Random(c.seed * 131 + 20)
    scs = [scenario(rng) for _ in range(c.scale(240, 2500))]
    cases, keys, ms, mk = [], [], [], []
    from collections import Counter
    ends = Counter()
    for n, (sc, r) in enumerate(zip(scs, core.pmap(run, scs, timeout=300))):
        key = "%d:%s:%s:%s:%s%s" % (n, sc["tree"], sc["start"], sc["kw"], sc.get("sbox", sc["size"]), ":twice" if sc["twice"] else "")
        v = c.outcome(r, key, sc)
        for k, (x, m) in enumerate(v or []):
            cases.append(x)
            keys.append("%s:run%d" % (key, k))
            ends[x["said"], len(x["it"]) == x["max"], len(x["it"]) > 1] += 1
            ms.append(m)
            mk.append(keys[-1])
    c.extra["ends (said, limit reached, moved)"] = {str(k): n for k, n in ends.items()}
    c.extra["listings"] = sum(len(x["it"]) for x in cases)
    c.cases("SliverTrace", cases, keys, timeout=850)
    c.cases("MeshCase", ms, mk, timeout=850)
    c.assumptions += ["angles within 3e-6 degrees of a bound may count either way"]


core.main("C20", body, pre=install)
