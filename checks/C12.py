"""C12: boolean combinations of domains against set algebra (Csg.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import shapes

B2 = [{"kind": "box", "a": [-3, 1, -2, 2]}, {"kind": "ball", "a": [1, 0, 2]}, {"kind": "box", "a": [0, 3, 0, 3]}]
B3 = [{"kind": "box", "a": [-2, 1, -1, 2, -2, 2]}, {"kind": "ball", "a": [1, 0, 0, 2]}, {"kind": "torus", "a": [2, 1]},
      {"kind": "cylinder", "a": [2, 1]}, {"kind": "prism", "a": [2, 1]}]
OPS = ("union", "intersection", "difference")


def lattice(lo, hi, dim):
    return [list(p) for p in itertools.product(range(lo, hi + 1), repeat=dim)]


def rand_shape(rng, dim):
    def lim():
        a = rng.randint(-4, 3)
        return [a, rng.randint(a + 1, 4)]
    k = rng.choice(["box", "ball"] if dim == 2 else ["box", "ball", "torus", "cylinder", "prism"])
    if k == "box":
        return {"kind": k, "a": sum((lim() for _ in range(dim)), [])}
    if k == "ball":
        return {"kind": k, "a": [rng.randint(-3, 3) for _ in range(dim)] + [rng.randint(1, 4)]}
    if k == "torus":
        b = rng.randint(1, 2)
        return {"kind": k, "a": [rng.randint(b, 4), b]}
    return {"kind": k, "a": [rng.randint(1, 3), rng.randint(1, 3)]}


def rand_tree(rng, dim, depth):
    if depth == 0 or rng.random() < 0.15:
        return rand_shape(rng, dim)
    return {"kind": rng.choice(OPS), "of": [rand_tree(rng, dim, depth - 1) for _ in range(rng.randint(1 if rng.random() < .1 else 2, 4))]}


def small_trees(base):
    """every combination of two and three of the base shapes, and every nested one of two"""
    for op in OPS:
        for a in itertools.permutations(base, 2):
            yield {"kind": op, "of": list(a)}
        for a in itertools.permutations(base[:3], 3):
            yield {"kind": op, "of": list(a)}
            for op2 in OPS:
                yield {"kind": op, "of": [{"kind": op2, "of": list(a[:2])}, a[2]]}
                yield {"kind": op, "of": [a[2], {"kind": op2, "of": list(a[:2])}]}


def run_tree(job):
    import math

    import numpy as np
    t, pts, u = job
    d = shapes.tree(t, u)
    v = d.eval(np.array(pts, dtype=float) * u)
    den = 1000
    bb = [float(x) / u * den for x in d.bbox]
    bb = [math.ceil(x - 1e-6) if k % 2 == 0 else math.floor(x + 1e-6) for k, x in enumerate(bb)]
    return {"kind": "tree", "tree": t, "pts": pts, "sign": shapes.signs(v, 1e-9), "bbox": [int(max(-2**28, min(2**28, x))) for x in bb],
            "den": den, "shape": [int(x) for x in np.shape(v)]}


def run_smooth(job):
    import numpy as np
    op, k, boxes, pts, u = job
    d = shapes.tree({"kind": op, "of": [{"kind": "box", "a": b} for b in boxes]}, u, smoothness=k * u)
    v = np.asarray(d.eval(np.array(pts, dtype=float) * u)).ravel() / u * 64
    return {"kind": "smooth", "op": op, "k": k, "boxes": boxes, "pts": pts,
            "val": [int(round(x)) if abs(x) < 1e6 else 10**6 for x in v.tolist()]}


def run_repeat(job):
    import numpy as np
    import SeismicMesh as sm
    inner, per, box, pts, u = job
    d = sm.Repeat([x * u for x in box], shapes.make(inner, u), [x * u for x in per])
    v = d.eval(np.array(pts, dtype=float) * u)
    return {"kind": "repeat", "inner": inner, "per": per, "box": box, "pts": pts, "sign": shapes.signs(v, 1e-9)}


def run(job):
    return {"tree": run_tree, "smooth": run_smooth, "repeat": run_repeat}[job[0]](job[1:])


def body(c):
    rng = random.Random(c.seed)
    jobs = []
    L2, L3 = lattice(-4, 4, 2), lattice(-3, 3, 3)
    us = [1.0, 0.5, 0.25]
    for base, L in ((B2, L2), (B3, L3)):
        for n, t in enumerate(small_trees(base)):
            jobs.append(("tree", t, L, us[n % 3]))
    for n in range(c.scale(400, 6000)):
        dim = rng.choice((2, 3))
        L = lattice(-6, 6, 2) if dim == 2 else rng.sample(lattice(-5, 5, 3), 250)
        jobs.append(("tree", rand_tree(rng, dim, rng.randint(1, 3)), L, rng.choice(us)))
    for n in range(c.scale(400, 4000)):
        dim = rng.choice((2, 3))
        nb = rng.choice((2, 2, 3, 4))
        boxes = []
        while len(boxes) < nb:
            s = rand_shape(rng, dim)
            if s["kind"] == "box":
                boxes.append(s["a"])
        L = lattice(-5, 5, 2) if dim == 2 else rng.sample(lattice(-5, 5, 3), 200)
        jobs.append(("smooth", rng.choice(OPS), rng.choice((1, 2, 4)), boxes, L, rng.choice(us)))
    for n in range(c.scale(120, 1500)):
        inner = rand_shape(rng, 3)
        per = [rng.choice((2, 4, 6, 8)) for _ in range(3)]
        lo = [rng.randint(-7, 0) for _ in range(3)]
        box = sum(([a, a + rng.randint(1, 12)] for a in lo), [])
        jobs.append(("repeat", inner, per, box, [[rng.randint(-9, 9) for _ in range(3)] for _ in range(200)], rng.choice(us)))
    jobs = [("repeat", *j[1:]) if j[0] == "repeat" else j for j in jobs]
    cases, keys = [], []
    for j, r in zip(jobs, core.pmap(run, jobs, timeout=60)):
        key = "%s:%s" % (j[0], str(j[1:3])[:120] if j[0] == "tree" else str(j[1:4]))
        v = c.outcome(r, key, {"job": j[:4]})
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.cases("Csg", cases, keys, timeout=850)
    c.extra.update(trees=sum(x["kind"] == "tree" for x in cases), smooth=sum(x["kind"] == "smooth" for x in cases),
                   repeats=sum(x["kind"] == "repeat" for x in cases), points=sum(len(x["pts"]) for x in cases))


if __name__ == "__main__":
    core.main("C12", body)
