"""Parallel mesh generation on the scheduled communicator, with everything that crosses a rank's
boundary recorded: messages, collectives, and what is put into the incremental triangulations."""
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fakempi


def install():
    """Record the calls of the triangulation classes (before SeismicMesh is imported)."""
    import numpy as np
    import _delaunay_class as m2
    import _delaunay_class3 as m3

    def rec(base, dim):
        class Recorder(base):
            def __init__(self, *a):
                super().__init__(*a)
                fakempi.note("new", dim, id(self))

            def insert(self, a):
                fakempi.note("insert", np.array(a, dtype=float).reshape(-1, dim))
                return super().insert(a)

            def get_finite_vertices(self):
                v = super().get_finite_vertices()
                fakempi.note("list", np.array(v, dtype=float).reshape(-1, dim))
                return v

            def get_finite_cells(self):
                v = super().get_finite_cells()
                fakempi.note("cells", np.array(v, dtype=int).reshape(-1, dim + 1))
                return v

            def remove(self, a):
                fakempi.note("remove", list(a))
                return super().remove(a)

            def move(self, a, b):
                fakempi.note("move", len(list(a)))
                return super().move(a, b)
        Recorder.__name__ = base.__name__
        return Recorder
    m2.DelaunayTriangulation = rec(m2.DelaunayTriangulation, 2)
    m3.DelaunayTriangulation3 = rec(m3.DelaunayTriangulation3, 3)


# ------------------------------------------------------------------ scenarios
def domain(sc):
    import SeismicMesh as sm
    k, dim = sc["domain"], sc["dim"]
    L = sc["L"]                                   # side lengths
    box = []
    for n in range(dim):
        box += [sc["o"][n], sc["o"][n] + L[n]]
    box = tuple(float(b) for b in box)
    if k == "box":
        return (sm.Rectangle if dim == 2 else sm.Cube)(box), {}
    if k == "ball":
        c = [sc["o"][n] + L[n] / 2 for n in range(dim)]
        r = min(L) / 2
        return (sm.Disk(c, r) if dim == 2 else sm.Ball(c, r)), {}
    if k == "hole":
        c = [sc["o"][n] + L[n] / 2 for n in range(dim)]
        r = min(L) / 6
        b = (sm.Rectangle if dim == 2 else sm.Cube)(box)
        return sm.Difference([b, sm.Disk(c, r) if dim == 2 else sm.Ball(c, r)]), {}
    if k == "corner":                             # a small ball in one corner of a large box: some blocks are empty
        import numpy as np
        c = np.array([sc["o"][n] + 0.1 * L[n] for n in range(dim)])
        r = 0.08 * max(L)

        def fd(x):
            return np.sqrt(((x - c) ** 2).sum(1)) - r
        return fd, {"bbox": box}
    if k == "ell":                                # an axis aligned ellipse as a callable
        import numpy as np
        c = np.array([sc["o"][n] + L[n] / 2 for n in range(dim)])
        a = np.array([0.5 * L[n] for n in range(dim)])

        def fd(x):
            return (np.sqrt((((x - c) / a) ** 2).sum(1)) - 1.0) * a.min()
        return fd, {"bbox": box}
    if k == "inner":                              # the points surround the domain
        import numpy as np
        lo = np.array(box[::2]) + 1.6 * sc["h0"]
        hi = np.array(box[1::2]) - 1.6 * sc["h0"]

        def fd(x):
            return np.maximum(lo - x, x - hi).max(axis=1)
        return fd, {"bbox": box}
    if k == "ellin":                              # the same with an ellipse
        import numpy as np
        c = np.array([sc["o"][n] + L[n] / 2 for n in range(dim)])
        a = np.array([0.5 * L[n] - 1.6 * sc["h0"] for n in range(dim)])

        def fd(x):
            return (np.sqrt((((x - c) / a) ** 2).sum(1)) - 1.0) * a.min()
        return fd, {"bbox": box}
    raise ValueError(k)


def size_function(sc):
    import numpy as np
    import SeismicMesh as sm
    h0, k = sc["h0"], sc["size"]
    if k == "const":
        return h0, {}
    if k == "call":
        def fh(x):
            return np.full(len(x), h0) * (1.0 + 0.5 * np.abs(np.sin(x[:, 0])))
        return fh, {"h0": h0}
    if k == "grid":                               # a size function object
        from scipy.interpolate import RegularGridInterpolator
        dim = sc["dim"]
        vs = [np.linspace(sc["o"][n] - 10 * h0, sc["o"][n] + sc["L"][n] + 10 * h0, 12) for n in range(dim)]
        g = np.meshgrid(*vs, indexing="ij")
        v = h0 * (1.0 + 0.3 * (g[0] - sc["o"][0] + 10 * h0) / (sc["L"][0] + 20 * h0))
        f = RegularGridInterpolator(vs, v, bounds_error=False, fill_value=None)
        box = []
        for n in range(dim):
            box += [float(sc["o"][n]), float(sc["o"][n] + sc["L"][n])]
        return sm.SizeFunction(tuple(box), f, hmin=h0), {}
    raise ValueError(k)


def user_points(sc):
    import numpy as np
    rng = np.random.RandomState(sc["pseed"])
    dim, h = sc["dim"], sc["h0"]
    ax = [np.arange(sc["o"][n], sc["o"][n] + sc["L"][n] + 1e-9, h) for n in range(dim)]
    p = np.stack([a.ravel() for a in np.meshgrid(*ax, indexing="ij")], axis=1)
    p = p + rng.uniform(-0.25, 0.25, p.shape) * h
    if sc.get("few"):
        p = p[: sc["few"]]
    return p


def call(sc, comm, **over):
    """generate_mesh for a scenario; returns (points, cells)."""
    import SeismicMesh as sm
    d, o1 = domain(sc)
    f, o2 = size_function(sc)
    kw = dict(verbose=0, max_iter=sc["iters"], axis=sc["axis"], seed=sc.get("seed", 0))
    kw.update(o1)
    kw.update(o2)
    if sc.get("points"):
        kw["points"] = user_points(sc)
    kw.update(sc.get("opts", {}))
    kw.update(over)
    return sm.generate_mesh(d, f, comm=comm, **kw)


def world(job):
    """Run a scenario on all its ranks.  job = (scenario, semantics, seed, record)."""
    sc, semantics, seed, record = job[:4]

    def target(comm):
        if record:
            fakempi.LOG = []
        try:
            v = call(sc, comm)
            return ("ok", v, fakempi.LOG)
        except Exception as e:  # an error of the program: the rank ends with it
            return ("raise", "%s: %s" % (type(e).__name__, e), fakempi.LOG)
    w = fakempi.run_world(sc["ranks"], target, semantics, seed, timeout=job[4] if len(job) > 4 else 100)
    out = {"deadlock": w.deadlock, "mismatch": w.mismatch, "leftover": w.leftover, "ops": [w.ops[r] for r in range(sc["ranks"])],
           "ranks": []}
    for r in range(sc["ranks"]):
        o = w.outcome[r]
        if o[0] == "ok":
            out["ranks"].append({"end": o[1][0], "value": o[1][1], "log": o[1][2]})
        else:
            out["ranks"].append({"end": o[0], "value": str(o[1])[:300], "log": None})
    return out


def wide(sc):
    """Are all blocks wider than the overlap?"""
    return sc["L"][sc["axis"]] / sc["ranks"] >= 7 * sc["h0"]


def scenario(rng, ranks=None, dim=None, **kw):
    dim = dim or rng.choice([2, 2, 2, 3])
    ranks = ranks or rng.choice([2, 2, 3, 4, 5] if dim == 2 else [2, 2, 3])
    axis = rng.randrange(dim)
    h = 1.0
    n = [rng.randint(6, 10) if dim == 2 else (8 if kw.get("domain") == "inner" else 5) for _ in range(dim)]
    n[axis] = ranks * 7 + rng.randint(0, 6)
    sc = {"dim": dim, "ranks": ranks, "axis": axis, "h0": h, "L": [float(x) for x in n],
          "o": [float(rng.randint(-20, 20)) for _ in range(dim)], "domain": "box", "size": "const",
          "iters": rng.choice([2, 3, 4]), "seed": rng.randint(0, 99), "pseed": rng.randint(0, 10**6)}
    sc.update(kw)
    if sc["size"] != "const":                     # edges are longer than h0: wider blocks
        sc["L"][axis] += ranks * 3.0
    return sc


# ------------------------------------------------------------------ iterations
def iterations(log):
    """Split a rank's record into iterations: what it owns, sends, receives and adds as ghosts."""
    its = []
    cur = None
    for e in log:
        if e[0] == "new":
            cur = {"own": [], "list": None, "sent": [], "recv": [], "ghost": [], "exch": False, "closed": False}
            its.append(cur)
        elif cur is None or cur["closed"]:
            continue
        elif e[0] == "insert":
            cur["ghost" if cur["exch"] else "own"].append(e[1])
        elif e[0] == "list":
            if not cur["exch"]:
                cur["list"] = e[1]
        elif e[0] == "send":
            cur["exch"] = True
            cur["sent"].append((e[1], e[2]))
        elif e[0] == "recv":
            cur["exch"] = True
            cur["recv"].append((e[1], e[2]))
        elif e[0] == "coll":
            cur["closed"] = True
    return its
