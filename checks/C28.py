"""C28: the points a mesh generation starts from (Start.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import meshing
import par
import shapes
from C09 import scaled

H = 100


def first(sc, d, size, kw):
    """the points of the first triangulation"""
    import numpy as np
    import SeismicMesh as sm
    fakempi.LOG = []
    try:
        sm.generate_mesh(d, size, comm=fakempi.serial(), verbose=0, **kw)
        log = fakempi.LOG
    finally:
        fakempi.LOG = None
    return np.asarray(next(e[1] for e in log if e[0] == "list"))


def run(sc):
    import numpy as np
    import SeismicMesh as sm
    dim, h = sc["dim"], sc["h0"] * sc["scale"]
    unit = H / h
    S = int(round(sc["u"] * H / sc["h0"]))
    d, kw = meshing.domain(sc)
    box = kw.get("bbox") or d.bbox
    kw["max_iter"], kw["seed"] = sc["iters"], sc["seed"]
    kw.update(sc["opts"])
    sizes = np.array(sc["sizes"], dtype=float) / 10
    ref = -37 - 4 * S

    def f(x):
        x = np.asarray(x)
        return h * sizes[np.floor((x[:, 0] * unit - ref + 1e-4) / sc["slab"]).astype(int) % len(sizes)]
    if sc["sizes"] == [10] and not sc.get("sbox"):
        size = h
    elif sc.get("sbox"):
        size = sm.SizeFunction(tuple(float(b * sc["u"] * sc["scale"]) for b in sc["sbox"]), f, hmin=h)
    else:
        size, kw["h0"] = f, h
    if sc["points"]:
        r = np.random.RandomState(sc["seed"])
        n = sc["points"]
        q = r.randint(0, 2000, (n, dim))
        lo, hi = np.array(box[::2]), np.array(box[1::2])
        g = lo + q / 2000.0 * (hi - lo)
        p = first(sc, d, size, dict(kw, points=g))
        ids = {}

        def num(a):
            return [ids.setdefault((x + 0.0).tobytes(), len(ids)) for x in np.ascontiguousarray(a)]
        return {"kind": "points", "given": num(g), "pts": num(p)}
    if sc["user"]:
        kw["pfix"] = [[x / unit for x in q] for q in sc["user"]]
    p = first(sc, d, size, kw)
    other = first(sc, d, size, dict(kw, seed=sc["seed"] + 1 + sc["seed"] % 5))
    a, b = ({tuple(x) for x in np.rint(y * unit * 10).astype(int).tolist()} for y in (p, other))
    q = p * unit
    if np.abs(q - np.rint(q)).max() > 1e-3:
        raise AssertionError("points between the nodes of the lattice: %s" % q[np.abs(q - np.rint(q)).max(1) > 1e-3][:3].tolist())
    return {"kind": "lattice", "dim": dim, "tree": scaled(sc["tree"], S), "fn": sc["callable"],
            "box": [int(round(b * unit)) for b in box], "sbox": [b * S for b in sc.get("sbox", [])],
            "geps": int(round(H * sc["opts"].get("geps_mult", .1))), "user": sc["user"], "slab": sc["slab"], "ref": ref, "sizes": sc["sizes"],
            "r0m": bool(sc["opts"].get("r0m_is_h0")), "pts": np.rint(q).astype(int).tolist(), "seeds": len(a ^ b)}


def scenario(rng):
    dim = rng.choice((2, 2, 3))
    sc = {"dim": dim, "tree": meshing.tree(rng, dim), "u": rng.choice((3.0, 4.0, 4.5, 5.25)) if dim == 2 else rng.choice((2.0, 2.25, 2.5)),
          "h0": 1.0, "callable": rng.random() < .3, "iters": rng.choice((1, 1, 2)), "seed": rng.randint(0, 99999),
          "scale": rng.choice((1.0, 1e-3, 500.0)), "opts": {}, "user": [], "points": 0}
    while sc["tree"]["kind"] == "prism":
        sc["tree"] = meshing.tree(rng, dim)
    sc["sizes"] = rng.choice(([10], [10, 15], [10, 20], [12, 20, 30], [20, 14], [15], [13, 25], [10, 10, 30]))
    sc["slab"] = 33 + H * rng.randint(3, 9)
    if rng.random() < .4:
        sc["opts"]["r0m_is_h0"] = True
    if rng.random() < .3:
        sc["opts"]["geps_mult"] = rng.choice((.05, .1, .2))
    if rng.random() < .25:
        meshing.pad(rng, sc)
        if dim == 3:
            sc["u"] = 2.0
    if rng.random() < .15:
        sc["points"] = rng.randint(20, 200)
        sc["tree"] = meshing.rbox(rng, dim, -3, 3, 2)
        sc.pop("sbox", None)
    elif rng.random() < .35:
        # points fixed by the user in the middle of a box or ball
        S = int(round(sc["u"] * H))
        b = meshing.box_of(sc["tree"])
        for _ in range(rng.randint(1, 3)):
            q = [rng.randint(b[2 * k] * S, b[2 * k + 1] * S) for k in range(dim)]
            if all(sum((x - y) ** 2 for x, y in zip(q, o)) > 100 ** 2 for o in sc["user"]):
                sc["user"].append(q)
    return sc


def body(c):
    rng = random.Random(c.seed * 61 + 28)
    scs = [scenario(rng) for _ in range(c.scale(260, 2500))]
    cases, keys = [], []
    for n, (sc, r) in enumerate(zip(scs, core.pmap(run, scs, timeout=200))):
        key = "%d:%s:u%s:sizes %s:%s:%s%s" % (n, sc["tree"], sc["u"], sc["sizes"], sc["opts"], sc.get("sbox", ""), sc["user"] or sc["points"] or "")
        v = c.outcome(r, key, sc)
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.extra.update(starts=len(cases), points=sum(len(x["pts"]) for x in cases), padded=sum(bool(s.get("sbox")) for s in scs),
                   given=sum(x["kind"] == "points" for x in cases), fixed=sum(bool(s["user"]) for s in scs))
    c.cases("Start", cases, keys, timeout=850)
    c.assumptions += ["serial; size functions that are constant in slabs; frequencies within five standard deviations"]


if __name__ == "__main__":
    core.main("C28", body, pre=par.install)
