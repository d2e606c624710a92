"""Random calls of generate_mesh, and what is recorded of the meshes for MeshCase.tla."""
import math
import random
from fractions import Fraction

import fakempi
import shapes


# ------------------------------------------------------------------ scenarios (serial)
def rbox(rng, dim, lo=-3, hi=3, mn=1):
    a = []
    for _ in range(dim):
        x = rng.randint(lo, hi - mn)
        a += [x, rng.randint(x + mn, hi)]
    return {"kind": "box", "a": a}


def rball(rng, dim, c=2, r=(1, 3)):
    return {"kind": "ball", "a": [rng.randint(-c, c) for _ in range(dim)] + [rng.randint(*r)]}


def tree(rng, dim):
    """domains whose parts overlap substantially, given by integers"""
    s = rng.random()
    if dim == 2:
        if s < .25:
            return rbox(rng, 2, -3, 3, 2)
        if s < .4:
            return rball(rng, 2, 2, (2, 3))
        if s < .55:      # plate with a hole
            return {"kind": "difference", "of": [{"kind": "box", "a": [-3, 3, -2, 3]}, {"kind": "ball", "a": [rng.randint(-1, 1), 0, 1]}]}
        if s < .7:       # L and T shapes
            return {"kind": "union", "of": [{"kind": "box", "a": [-3, 3, -3, rng.randint(-1, 0)]}, {"kind": "box", "a": [rng.randint(-3, 0), 1, -3, 3]}]}
        if s < .8:
            return {"kind": "difference", "of": [{"kind": "box", "a": [-3, 3, -3, 3]}, {"kind": "box", "a": [rng.randint(-1, 0), 3, 0, 3]}]}
        if s < .9:
            return {"kind": "union", "of": [{"kind": "box", "a": [-3, 1, -2, 2]}, {"kind": "ball", "a": [1, 0, rng.randint(2, 3)]}]}
        if s < .95:
            return {"kind": "intersection", "of": [{"kind": "box", "a": [-3, 2, -3, 3]}, {"kind": "ball", "a": [0, 0, 3]}]}
        return {"kind": "difference", "of": [{"kind": "ball", "a": [0, 0, 3]}, {"kind": "ball", "a": [rng.randint(-1, 1), 0, 1]}]}
    if s < .35:
        return rbox(rng, 3, -2, 2, 2)
    if s < .55:
        return rball(rng, 3, 1, (2, 2))
    if s < .65:
        return {"kind": "cylinder", "a": [rng.randint(1, 2), rng.randint(1, 2)]}
    if s < .7:
        return {"kind": "torus", "a": [2, 1]}
    if s < .75:
        return {"kind": "prism", "a": [3, 1]}
    if s < .85:
        return {"kind": "difference", "of": [{"kind": "box", "a": [-2, 2, -2, 2, -2, 2]}, {"kind": "ball", "a": [0, 0, 0, 1]}]}
    if s < .95:
        return {"kind": "union", "of": [{"kind": "box", "a": [-2, 2, -1, 1, -1, 1]}, {"kind": "ball", "a": [1, 0, 0, 2]}]}
    return {"kind": "intersection", "of": [{"kind": "box", "a": [-2, 1, -2, 2, -2, 2]}, {"kind": "ball", "a": [0, 0, 0, 2]}]}


def scenario(rng, dim=None, **kw):
    dim = dim or rng.choice((2, 2, 2, 3))
    sc = {"dim": dim, "tree": tree(rng, dim), "u": rng.choice((3.0, 4.0, 5.0)) if dim == 2 else rng.choice((2.0, 2.5, 3.0)),
          "h0": 1.0, "size": rng.choice(("const", "const", "call", "grid")), "callable": rng.random() < .2,
          "iters": rng.choice((1, 2, 3, 5, 10, 25)), "seed": rng.randint(0, 999), "scale": rng.choice((1.0, 1.0, 1e-3, 500.0)), "opts": {}}
    if rng.random() < .3:
        sc["opts"]["perform_checks"] = True
    if rng.random() < .25:
        sc["opts"]["mesh_improvement"] = False
    if rng.random() < .2:
        sc["opts"]["r0m_is_h0"] = True
    if rng.random() < .2:
        sc["opts"]["geps_mult"] = rng.choice((.01, .1, .2))
    if rng.random() < .2:
        sc["opts"]["delta_t"] = rng.choice((.1, .2, .3, .4))
    sc.update(kw)
    return sc


def pad(rng, sc, most=1):
    """a size function that is defined in a larger box than the domain's"""
    b = box_of(sc["tree"])
    sc["size"] = "grid"
    sc["sbox"] = [x + rng.choice((0, 0, 1, most)) * (1 if n % 2 else -1) for n, x in enumerate(b)]
    return sc


def box_of(t):
    """integer bounding box"""
    if "of" in t:
        b = [box_of(x) for x in t["of"]]
        return [max(x[n] for x in b) if n % 2 else min(x[n] for x in b) for n in range(len(b[0]))]
    a, k = t["a"], t["kind"]
    if k == "box":
        return list(a)
    if k == "ball":
        return [x for c in a[:-1] for x in (c - a[-1], c + a[-1])]
    if k == "torus":
        return [-a[0] - a[1], a[0] + a[1], -a[1], a[1], -a[0] - a[1], a[0] + a[1]]
    if k == "cylinder":
        return [-a[1], a[1], -a[0], a[0], -a[1], a[1]]
    return [-2 * a[0], 2 * a[0], -a[0], a[0], -a[1], a[1]]


def padded_box(sc):
    """what Shapes.Padded makes of the domain's box"""
    if not sc.get("sbox") or sc.get("callable") or sc["tree"]["kind"] != "box":
        return sc["tree"]
    return {"kind": "box", "a": [max(x, y) if n % 2 else min(x, y) for n, (x, y) in enumerate(zip(sc["tree"]["a"], sc["sbox"]))]}


def domain(sc):
    d = shapes.tree(sc["tree"], sc["u"] * sc["scale"])
    if sc.get("callable"):
        k = sc.get("slope", 1.0)                     # a signed function that is not a distance
        return (lambda x: k * d.eval(x)), {"bbox": tuple(float(b) for b in d.bbox)}
    return d, {}


def size(sc, bbox):
    import numpy as np
    import SeismicMesh as sm
    h0 = sc["h0"] * sc["scale"]
    k = sc["size"]
    L = sc["u"] * sc["scale"]
    if k == "const":
        return h0, {}
    if k == "call":
        w = sc["seed"] % 3

        def fh(x):
            return h0 * (1.0 + (.5 * np.abs(np.sin(x[:, 0] / L)) if w == 0 else .15 * np.sqrt((x ** 2).sum(1)) / L if w == 1 else 0 * x[:, 0]))
        return fh, {"h0": h0}
    dim = sc["dim"]
    if sc.get("sbox"):                               # the size function is defined in another box than the domain's
        bbox = [b * L for b in sc["sbox"]]
    from scipy.interpolate import RegularGridInterpolator
    vs = [np.linspace(bbox[2 * n], bbox[2 * n + 1], 9) for n in range(dim)]
    g = np.meshgrid(*vs, indexing="ij")
    v = h0 * (1.0 + .6 * (g[dim - 1] - bbox[2 * dim - 2]) / (bbox[2 * dim - 1] - bbox[2 * dim - 2]))
    f = RegularGridInterpolator(vs, v, bounds_error=False, fill_value=None)
    return sm.SizeFunction(tuple(float(b) for b in bbox), f, hmin=h0), {}


def generate(sc, comm=None, **over):
    import SeismicMesh as sm
    d, o1 = domain(sc)
    bb = o1.get("bbox") or d.bbox
    f, o2 = size(sc, bb)
    kw = dict(verbose=0, max_iter=sc["iters"], seed=sc["seed"])
    kw.update(o1)
    kw.update(o2)
    kw.update(sc["opts"])
    if sc.get("pfix"):
        kw["pfix"] = [[x * sc["scale"] for x in q] for q in sc["pfix"]]
    if sc.get("sub"):
        kw["subdomains"] = [shapes.tree(s, sc["u"] * sc["scale"]) for s in sc["sub"]]
    kw.update(over)
    return sm.generate_mesh(d, f, comm=comm or fakempi.serial(), **kw)


# ------------------------------------------------------------------ what is recorded
def exact_sign(P, c):
    """sign of the orientation of a cell of float coordinates, exactly"""
    n = len(c) - 1
    a = [[Fraction(x) for x in P[v]] for v in c]
    m = [[x - y for x, y in zip(a[k + 1], a[0])] for k in range(n)]
    if n == 2:
        d = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    else:
        d = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
             + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    return (d > 0) - (d < 0)


def volumes(p, t):
    import numpy as np
    v = p[t]
    m = v[:, 1:] - v[:, :1]
    return np.linalg.det(m)


def record(p, t, unit, h):
    """a mesh as integers: positions in 1/unit, orientation signs (0: volume below round-off of h^dim)"""
    import numpy as np
    p, t = np.asarray(p), np.asarray(t)
    dim = p.shape[1]
    if not np.isfinite(p).all():
        raise AssertionError("vertices that are not finite")
    if t.ndim != 2 or t.shape[1] != dim + 1 or t.dtype.kind not in "iu":
        raise AssertionError("cells of shape %s and type %s" % (t.shape, t.dtype))
    ok = t.size > 0 and t.min() >= 0 and t.max() < len(p)
    sg = []
    if ok:
        v = volumes(p, t)
        thr = 1e-12 * max(1e-300, float(np.abs(p).max())) ** dim
        for k in range(len(t)):
            s = exact_sign(p.tolist(), t[k].tolist()) if abs(v[k]) < thr else int(np.sign(v[k]))
            # in 3D a cell may be flat up to round-off
            if dim == 3 and abs(v[k]) <= 1e-9 * h ** 3:
                s = 0
            sg.append(s)
    q = np.rint(p * unit)
    return {"dim": dim, "P": q.astype(int).tolist(), "T": t.astype(int).tolist(), "sign": sg,
            "dup": duplicates(p, 1e-10 * h)}


def duplicates(p, tol):
    from scipy.spatial import cKDTree
    return [[int(a), int(b)] for a, b in sorted(cKDTree(p).query_pairs(tol))][:5]


def case(p, t, h, rng, probes=30):
    """the case of MeshCase.tla"""
    import numpy as np
    p, t = np.asarray(p), np.asarray(t)
    r = record(p, t, 1.0, h)
    dim = r["dim"]
    lo, ext = p.min(0), float((p.max(0) - p.min(0)).max()) or 1.0
    n = 20000 if dim == 2 else 400
    q = np.rint((p - lo) / ext * n).astype(int)
    ok = t.size > 0 and t.min() >= 0 and t.max() < len(p)
    pr = []
    if ok:
        for k in rng.sample(range(len(t)), min(probes, len(t))):
            pr.append(np.rint((p[t[k]].mean(0) - lo) / ext * n).astype(int).tolist())
    return {"dim": dim, "nP": len(p), "T": t.astype(int).tolist(), "sign": r["sign"] if ok else [0] * len(t), "dup": r["dup"],
            "Q": q.tolist(), "probes": pr, "m": 2}
