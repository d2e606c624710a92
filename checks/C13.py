"""C13: primitive shapes and their moved copies (Moved.tla), bounding boxes and corners; boxes of combinations (Csg.tla)."""
import itertools
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import shapes
from C12 import rand_tree, run_tree, lattice  # noqa: E402  (definitions only)

ROTS = [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (4, -3), (-3, 4), (-4, -3)]


def move(case, q):
    """the moved point in units of 1/Den: stretch (1/25), rotations (1/5 each), translation"""
    dim, v, al = case["dim"], case["stretch"], case["alpha"]
    if v:
        s = sum(a * b for a, b in zip(q, v))
        y = []
        for d in range(dim):
            n = (al - 1) * 25 * s * v[d]
            if n % (al * al):
                return None
            y.append(25 * q[d] + n // (al * al))
    else:
        y = [25 * x for x in q]
    r = case["rot"]
    if dim == 2:
        co, si = r[0]
        y = [co * y[0] - si * y[1], si * y[0] + co * y[1]]
        den = 125
    else:
        co, si = r[2]
        y = [co * y[0] - si * y[1], si * y[0] + co * y[1], 5 * y[2]]
        co, si = r[1]
        y = [co * y[0] + si * y[2], 5 * y[1], co * y[2] - si * y[0]]
        co, si = r[0]
        y = [5 * y[0], co * y[1] - si * y[2], si * y[1] + co * y[2]]
        den = 3125
    return [a + den * t for a, t in zip(y, case["tr"])]


def rand_case(rng):
    dim = rng.choice((2, 3))
    k = rng.choice(["box", "box", "ball"] if dim == 2 else ["box", "box", "ball", "torus", "cylinder", "prism"])
    if k == "box":
        a = []
        for _ in range(dim):
            lo = rng.randint(-4, 3)
            a += [lo, rng.randint(lo + 1, 5)]
    elif k == "ball":
        a = [rng.randint(-3, 3) for _ in range(dim)] + [rng.randint(1, 5)]
    elif k == "torus":
        b = rng.randint(1, 3)
        a = [rng.randint(b, 4), b]
        if rng.random() < .3:
            a.reverse()
    else:
        a = [rng.randint(1, 4), rng.randint(1, 4)]
    case = {"dim": dim, "shape": {"kind": k, "a": a}, "stretch": [], "alpha": 1, "rot": [[5, 0]] * 3, "tr": [0] * dim}
    if rng.random() < .5:
        s = rng.random()
        if s < .6:
            d, al = rng.randrange(dim), rng.randint(1, 5)
            case["stretch"] = [al * (-1 if rng.random() < .2 else 1) if x == d else 0 for x in range(dim)]
            case["alpha"] = al
        else:
            v = rng.choice([(3, 4), (4, 3), (-3, 4), (4, -3)])
            v = list(v) if dim == 2 else rng.choice([[v[0], v[1], 0], [v[0], 0, v[1]], [0, v[0], v[1]]])
            case["stretch"], case["alpha"] = v, 5
    if rng.random() < .7:
        case["rot"] = [list(rng.choice(ROTS)) if rng.random() < .7 else [5, 0] for _ in range(3)]
        if dim == 2:
            case["rot"] = case["rot"][:1] + [[5, 0], [5, 0]]
    if rng.random() < .6:
        case["tr"] = [rng.randint(-4, 4) for _ in range(dim)]
    qs = lattice(-6, 6, 2) if dim == 2 else rng.sample(lattice(-5, 5, 3), 300)
    case["q"] = [q for q in qs if move(case, q) is not None]
    if k == "box" or rng.random() < .3:
        case["q"] = case["q"][:: 1 if dim == 2 else 2]
    return case


def run(job):
    import numpy as np
    case, u, as_list = job
    case = dict(case)
    dim, sh = case["dim"], case["shape"]
    den = 125 if dim == 2 else 3125
    kw = {}
    if case["stretch"]:
        kw["stretch"] = case["stretch"] if as_list else np.array(case["stretch"], dtype=float)
    if any(r != [5, 0] for r in case["rot"]):
        kw["rotate"] = [math.atan2(s, co) for co, s in case["rot"]]
    if any(case["tr"]):
        kw["translate"] = [t * u for t in case["tr"]]
        if not as_list:
            kw["translate"] = np.array(kw["translate"])
    moved = shapes.make(sh, u, **kw)
    plain = shapes.make(sh, u)
    q = np.array(case["q"], dtype=float).reshape(-1, dim) * u
    X = [move(case, p) for p in case["q"]]
    xm = np.array(X, dtype=float).reshape(-1, dim) / den * u
    x0 = xm.copy()
    vm, vp = np.asarray(moved.eval(xm)).ravel() / u, np.asarray(plain.eval(q)).ravel() / u
    if not np.array_equal(xm, x0):
        raise AssertionError("eval modified the points")
    case["X"] = X
    case["sign"], case["base"] = shapes.signs(vm, 1e-9), shapes.signs(vp, 1e-9)
    case["diff"] = [int(min(2**30, abs(a - b) * 1e9)) if a == a else 2**30 for a, b in zip(vm.tolist(), vp.tolist())]
    case["val64"] = [int(round(max(-1e6, min(1e6, b * 64)))) for b in vp.tolist()]
    case["ballerr"] = [0] * len(X)
    if sh["kind"] == "ball":     # value + r = distance to the centre: its square in 1/1000 against the exact integer
        case["ballerr"] = [int(round(min(1e6, abs((b + sh["a"][-1]) ** 2 - sum((x - y) ** 2 for x, y in zip(p, sh["a"]))) * 1000)))
                           for b, p in zip(vp.tolist(), case["q"])]
    bb = [float(x) / u * den for x in moved.bbox]
    case["bbox"] = [int(math.ceil(x - 1e-5) if k % 2 == 0 else math.floor(x + 1e-5)) for k, x in enumerate(bb)]
    co = moved.corners
    case["corners"] = [] if co is None else [[int(round(x / u * den)) for x in p] for p in np.asarray(co).tolist()]
    if sh["kind"] == "box" and plain.corners is not None and len(plain.corners) != 2 ** dim:
        raise AssertionError("number of corners")
    return case


def body(c):
    rng = random.Random(c.seed + 13)
    jobs = [(rand_case(rng), rng.choice((1.0, .5, .25)), rng.random() < .5) for _ in range(c.scale(1500, 12000))]
    cases, keys = [], []
    for j, r in zip(jobs, core.pmap(run, jobs, timeout=60)):
        k = {x: j[0][x] for x in ("shape", "stretch", "rot", "tr")}
        v = c.outcome(r, str(k), k)
        if v is not None:
            cases.append(v)
            keys.append(str(k))
    c.cases("Moved", cases, keys, timeout=850)
    c.extra.update(shapes=len(cases), points=sum(len(x["q"]) for x in cases),
                   kinds=sorted({x["shape"]["kind"] for x in cases}))
    # bounding boxes of combinations
    jobs = []
    for n in range(c.scale(150, 2000)):
        dim = rng.choice((2, 3))
        L = lattice(-8, 8, 2) if dim == 2 else rng.sample(lattice(-6, 6, 3), 300)
        jobs.append((rand_tree(rng, dim, rng.randint(1, 2)), L, rng.choice((1., .5))))
    cs, ks = [], []
    for j, r in zip(jobs, core.pmap(run_tree, jobs, timeout=60)):
        v = c.outcome(r, str(j[0])[:150], {"tree": j[0]})
        if v is not None:
            cs.append(v)
            ks.append("tree:" + str(j[0])[:150])
    c.cases("Csg", cs, ks)


if __name__ == "__main__":
    core.main("C13", body)
