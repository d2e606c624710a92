"""C26: every iteration moves the points as the balance of forces requires (Step.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import meshing
import par
import shapes
from C09 import scaled

FAR = 1000000


def rtree(rng, dim):
    box, ball = (lambda *a: {"kind": "box", "a": list(a)}), (lambda *a: {"kind": "ball", "a": list(a)})
    s = rng.random()
    if dim == 2:
        if s < .3:
            return meshing.rbox(rng, 2, -3, 3, 2)
        if s < .45:
            return ball(rng.randint(-1, 1), rng.randint(-1, 1), rng.randint(2, 3))
        if s < .6:
            return {"kind": "difference", "of": [box(-3, 3, -2, 3), ball(rng.randint(-1, 1), 0, 1)]}
        if s < .8:
            return {"kind": "union", "of": [box(-3, 3, -3, rng.randint(-1, 0)), box(rng.randint(-3, 0), 1, -3, 3)]}
        return {"kind": "intersection", "of": [box(-3, 2, -3, 3), ball(0, 0, 3)]}
    if s < .5:
        return meshing.rbox(rng, 3, -2, 2, 2)
    if s < .75:
        return ball(0, rng.randint(-1, 1), 0, 2)
    return {"kind": "difference", "of": [box(-2, 2, -2, 2, -2, 2), ball(0, 0, 0, 1)]}


def desired(sc):
    """the size function, as the user gives it"""
    import numpy as np
    h, L, w = sc["h0"] * sc["scale"], sc["u"] * sc["scale"], sc["seed"] % 3
    if sc["size"] == "const":
        return lambda x: np.full(len(x), h)
    if w == 0:
        return lambda x: h * (1.0 + .5 * np.abs(np.sin(x[:, 0] / L)))
    if w == 1:
        return lambda x: h * (1.0 + .15 * np.sqrt((x ** 2).sum(1)) / L)
    return lambda x: h * (1.2 + .1 * np.clip(x[:, -1], -2 * L, 2 * L) / L)


def run(sc):
    import itertools
    import numpy as np
    import SeismicMesh as sm
    dim, unit, n = sc["dim"], 1000.0 / (sc["h0"] * sc["scale"]), sc["ranks"]
    S = int(round(sc["u"] * 1000 / sc["h0"]))
    f = desired(sc)
    d, kw = meshing.domain(sc)
    if sc["size"] == "const":
        size = sc["h0"] * sc["scale"]
    else:
        size, kw["h0"] = f, sc["h0"] * sc["scale"]
    kw.update(verbose=0, max_iter=sc["iters"], seed=sc["seed"], **sc["opts"])
    if sc["pfix"]:
        kw["pfix"] = [[x / unit for x in q] for q in sc["pfix"]]
    if sc["sub"]:
        kw["subdomains"] = [shapes.tree(s, sc["u"] * sc["scale"]) for s in sc["sub"]]

    def target(comm):
        fakempi.LOG = []
        sm.generate_mesh(d, size, comm=comm, **kw)
        return fakempi.LOG
    if n == 1:
        logs = [target(fakempi.serial())]
        fakempi.LOG = None
    else:
        w = fakempi.run_world(n, target, "buffered", sc["seed"], timeout=100)
        bad = [r for r in range(n) if w.outcome[r][0] != "ok"]
        if bad or w.deadlock:
            raise AssertionError("rank %s: %s" % (bad, w.outcome[bad[0]] if bad else w.deadlock))
        logs = [w.outcome[r][1] for r in range(n)]
    ranks = []
    for log in logs:
        its = []
        for e in log:
            if e[0] == "new":
                its.append({"insert": [], "list": [], "cells": []})
            elif its and e[0] in its[-1]:
                its[-1][e[0]].append(e[1])
        its = [x for x in its if x["insert"] and x["cells"]]
        if len(its) != sc["iters"]:
            raise AssertionError("%d triangulations" % len(its))
        ranks.append(its)
    # the extents of the blocks: the first points, and five edge lengths around
    ext = []
    for its in ranks:
        lo, hi = its[0]["insert"][0].min(0) - 5 * sc["h0"] * sc["scale"], its[0]["insert"][0].max(0) + 5 * sc["h0"] * sc["scale"]
        ext.append((np.floor(lo * unit).astype(int).tolist(), np.ceil(hi * unit).astype(int).tolist()) if n > 1 else ([-FAR] * dim, [FAR] * dim))
    out = []
    for k in sorted(set(sc["watch"])):
        for r, its in enumerate(ranks):
            p, t = its[k]["list"][-1], its[k]["cells"][-1]
            if np.abs(p * unit).max() > (40000 if sc["tree"]["kind"] == "box" else 15000):      # see the assumptions
                continue
            ed = np.unique(np.sort(np.vstack([t[:, list(c)] for c in itertools.combinations(range(dim + 1), 2)]), axis=1), axis=0)
            h = np.rint(f((p[ed[:, 0]] + p[ed[:, 1]]) / 2) * unit).astype(int)
            out.append({"dim": dim, "V": np.rint(p * unit).astype(int).tolist(), "T": (t + 1).tolist(),
                        "E": [[int(a) + 1, int(b) + 1, int(x)] for (a, b), x in zip(ed, h)],
                        "dt": int(round(100 * sc["opts"].get("delta_t", .3))), "geps": int(round(1000 * sc["opts"].get("geps_mult", .1))),
                        "tree": scaled(sc["tree"], S), "levels": [scaled(s, S) for s in sc["sub"]], "fixed": sc["pfix"],
                        "keep": n == 1 and not sc["callable"] and (dim == 2 or sc["size"] == "const"),
                        "own": len(its[k]["list"][0]), "lo": ext[r][0], "hi": ext[r][1],
                        "next": np.rint(np.clip(its[k + 1]["insert"][0] * unit, -FAR, FAR)).astype(int).tolist(), "k": k, "r": r})
    return out


def scenario(rng):
    dim = rng.choice((2, 2, 3))
    sc = {"dim": dim, "tree": rtree(rng, dim), "u": rng.choice((1.0, 1.5, 2.0)) if dim == 2 else rng.choice((1.0, 1.25)), "h0": 1.0, "ranks": 1,
          "size": rng.choice(("const", "call")), "callable": rng.random() < .25, "seed": rng.randint(0, 999),
          "scale": rng.choice((1.0, 1e-2, 300.0)), "opts": {}, "pfix": [], "sub": []}
    sc["iters"] = rng.choice((2, 3, 4, 8, 15))
    sc["watch"] = [0, rng.randrange(sc["iters"] - 1), sc["iters"] - 2]
    o = sc["opts"]
    if rng.random() < .5:
        o["delta_t"] = rng.choice((.1, .2, .25, .3, .4))
    if rng.random() < .3:
        o["geps_mult"] = rng.choice((.05, .1, .15))
    if rng.random() < .2:
        o["r0m_is_h0"] = True
    if rng.random() < .3:
        o["mesh_improvement"] = False
    sc["axis"] = 1
    if rng.random() < .2:                            # a long box on several ranks
        sc["ranks"], sc["axis"], sc["u"] = (rng.choice((2, 3)), rng.randrange(2), 1.0) if dim == 2 else (2, rng.randrange(3), 1.0)
        a = []
        for k in range(dim):
            a += [0, (rng.randint(4, 5) if dim == 2 else 2) if k != sc["axis"] else sc["ranks"] * 8]
        sc["tree"], sc["scale"], sc["size"] = {"kind": "box", "a": a}, 1.0, "const" if rng.random() < .7 else "call"
        o["axis"] = sc["axis"]
        sc["seed"] += sc["seed"] % 3 == 1            # not the size that leaves no points in distant blocks
    elif dim == 2 and rng.random() < .25:
        sc["sub"] = [{"kind": "ball", "a": [rng.randint(-1, 1), 0, 1]}]
    return sc


def body(c):
    rng = random.Random(c.seed * 59 + 26)
    scs = [scenario(rng) for _ in range(c.scale(260, 2500))]
    cases, keys = [], []
    for n, (sc, r) in enumerate(zip(scs, core.pmap(run, scs, timeout=300, chunk=1))):
        key = "%d:%s:u%s:%s:%d iterations:%s:%s" % (n, sc["tree"], sc["u"], sc["size"], sc["iters"], sc["opts"], sc["sub"])
        v = c.outcome(r, key, sc)
        for x in v or []:
            cases.append(x)
            keys.append(key + ":iteration %d, rank %d of %d" % (x["k"], x["r"], sc["ranks"]))
    c.extra.update(iterations=len(cases), points=sum(len(x["V"]) for x in cases))
    c.cases("Step", cases, keys, timeout=850)
    c.assumptions += ["positions are rounded to a thousandth of the edge length", "points that leave the domain near an edge between two of its parts are not judged (they can go far away for an iteration, which is left out)"]


if __name__ == "__main__":
    core.main("C26", body, pre=par.install)
