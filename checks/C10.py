"""C10: fixed points and corners are vertices of the mesh (Fixed.tla)."""
import itertools
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import meshing
from C09 import extent, scaled

G = 12           # steps per unit of length


def value(t, p):
    """signed function of a tree, only used to choose points (Fixed.tla judges the choice)"""
    if "of" in t:
        v = [value(x, p) for x in t["of"]]
        return {"union": min, "intersection": max, "difference": lambda v: max(v[:1] + [-x for x in v[1:]])}[t["kind"]](v)
    a, k = t["a"], t["kind"]
    if k == "box":
        return max(max(a[2 * n] - x, x - a[2 * n + 1]) for n, x in enumerate(p))
    if k == "ball":
        return math.dist(p, a[:-1]) - a[-1]
    if k == "torus":
        return math.hypot(math.hypot(p[0], p[2]) - a[0], p[1]) - a[1]
    if k == "cylinder":
        return max(math.hypot(p[0], p[2]) - a[1], abs(p[1]) - a[0])
    return max((abs(p[0]) * math.sqrt(3) + p[1] - a[0]) / 2, -p[1] - a[0] / 2, abs(p[2]) - a[1])


def boxes(t):
    return [b for x in t["of"] for b in boxes(x)] if "of" in t else [t["a"]] if t["kind"] == "box" else []


def choose(rng, t, dim, h, n):
    """points of the lattice: on the boundary, or deep inside"""
    E = extent(t)
    out = []
    corners = [q for b in boxes(t) for q in itertools.product(*[(b[2 * k], b[2 * k + 1]) for k in range(dim)])]
    for _ in range(4000):
        if len(out) >= n:
            break
        st = rng.choice((1, 3, 6))
        p = [rng.randint(-E // st, E // st) * st for _ in range(dim)]
        if rng.random() < .5 and boxes(t):
            b = rng.choice(boxes(t))
            k = rng.randrange(dim)
            p[k] = b[2 * k + rng.randrange(2)]
        v = value(t, p)
        ok = False
        if abs(v) < 1e-9 * G:
            ok = any(value(t, [x + e for x, e in zip(p, q)]) < -1e-6 for q in itertools.product((-1, 0, 1), repeat=dim))
        elif v < -2 * h:
            ok = all(value(t, [x + 2 * h * e for x, e in zip(p, q)]) < -1e-6 for q in itertools.product((-1, 0, 1), repeat=dim))
        if ok and all(math.dist(p, q) >= 1.5 * h for q in out) and all(math.dist(p, q) >= 1.5 * h or tuple(p) == q for q in corners):
            out.append(p)
    return out


def run(sc):
    import numpy as np
    from scipy.spatial import cKDTree
    import SeismicMesh as sm
    dim, u = sc["dim"], sc["u"] * sc["scale"]
    t = scaled(sc["tree"], G)
    h = int(math.ceil(G / sc["u"] * sc["h0"]))
    sbox = [b * G for b in sc["sbox"]] if sc.get("sbox") and not sc["callable"] else []
    pts = [list(q) for b in boxes(scaled(meshing.padded_box(sc), G)) for q in itertools.product(*[(b[2 * n], b[2 * n + 1]) for n in range(dim)])]
    user = list(range(len(pts), len(pts) + len(sc["user"])))
    pts += sc["user"]

    def place(q):
        x = np.array(q, dtype=float).reshape(-1, dim) * u / G
        if sc["turn"] is not None:               # counterclockwise, then moved
            c, s = math.cos(sc["turn"]), math.sin(sc["turn"])
            x = np.stack([c * x[:, 0] - s * x[:, 1], s * x[:, 0] + c * x[:, 1]], 1) + [3.0 * u, -2.0 * u]
        return x
    over = {}
    if sc["user"]:
        over["pfix"] = place(sc["user"]) if sc["seed"] % 2 else place(sc["user"]).tolist()
    if sc["turn"] is not None:
        d = sm.Rectangle(tuple(float(x * u) for x in sc["tree"]["a"]), rotate=[sc["turn"], 0.0, 0.0], translate=[3.0 * u, -2.0 * u])
        f, o = meshing.size(sc, d.bbox)
        p, _ = sm.generate_mesh(d, f, comm=fakempi.serial(), verbose=0, max_iter=sc["iters"], seed=sc["seed"], **o, **sc["opts"], **over)
    else:
        p, _ = meshing.generate(sc, **over)
    near = cKDTree(p).query(place(pts))[0] / (sc["h0"] * sc["scale"]) if pts else []
    return {"dim": dim, "sbox": sbox, "tree": t, "h": h, "keep": not sc["callable"] and (dim == 2 or sc["size"] == "const"), "pts": pts,
            "near": [min(2000000, int(math.ceil(x * 1e6))) for x in near], "user": [k + 1 for k in user]}


def scenario(rng):
    sc = meshing.scenario(rng)
    sc["turn"] = None
    if sc["opts"].get("geps_mult", 0) > .1:
        del sc["opts"]["geps_mult"]
    sc["user"] = []
    if sc["dim"] == 2 and rng.random() < .2:
        sc["tree"] = meshing.rbox(rng, 2, -3, 3, 2)
        sc["turn"], sc["callable"], sc["scale"] = rng.choice((.3, 1.0, math.pi / 2, -.7, 2.5)), False, 1.0
    if sc["turn"] is not None:
        sc["iters"] = max(8, sc["iters"])
    elif rng.random() < .15:
        meshing.pad(rng, sc, 2)
    if rng.random() < .7:
        sc["iters"] = rng.choice((8, 10, 25, 40))
        sc["user"] = choose(rng, scaled(meshing.padded_box(sc), G), sc["dim"], int(math.ceil(G / sc["u"])), rng.randint(1, 6))
    if sc["dim"] == 2 and rng.random() < .15 and sc["tree"]["kind"] == "box":
        sc["sub"] = [{"kind": "ball", "a": [0, 0, 1]}]
        sc["turn"] = None
    if sc["iters"] < 5:
        sc["opts"].pop("perform_checks", None)
    return sc


def body(c):
    rng = random.Random(c.seed * 53 + 10)
    scs = [scenario(rng) for _ in range(c.scale(500, 5000))]
    cases, keys = [], []
    for n, (sc, r) in enumerate(zip(scs, core.pmap(run, scs, timeout=300))):
        key = "%d:%s:u%s:%s:%d iterations:%s:%s:%s" % (n, sc["tree"], sc["u"], sc["size"], sc["iters"], sc["opts"], sc["user"],
                                                       "turned %s" % sc["turn"] if sc["turn"] is not None else sc.get("sub", sc.get("sbox", "")))
        v = c.outcome(r, key, sc)
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.extra.update(meshes=len(cases), fixed=sum(len(x["user"]) for x in cases), kept=sum(x["keep"] for x in cases),
                   turned=sum(s["turn"] is not None for s in scs))
    c.cases("Fixed", cases, keys, timeout=850)
    c.assumptions += ["points fixed by the user are on the boundary or two edge lengths deep inside, and 1.5 edge lengths apart from each other and from corners"]


if __name__ == "__main__":
    core.main("C10", body)
