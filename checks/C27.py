"""C27: sizes and shapes of the cells follow the size function (Sizes.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import meshing
import shapes


def desired(sc, bb):
    """the size function, as the user gives it"""
    import numpy as np
    h, L, dim, w = sc["h0"] * sc["scale"], sc["u"] * sc["scale"], sc["dim"], sc["form"]
    if w == "const":
        return lambda x: np.full(len(x), h)
    if w == "radial":
        return lambda x: h * (1.0 + .15 * np.sqrt((x ** 2).sum(1)) / L)
    if w == "wave":
        return lambda x: h * (1.0 + .3 * (1 + np.sin(x[:, 0] / L)))
    d = sc["along"]
    return lambda x: h * (1 + sc["grow"] * (x[:, d] - bb[2 * d]) / (bb[2 * d + 1] - bb[2 * d]))


def run(sc):
    import numpy as np
    import SeismicMesh as sm
    from scipy.interpolate import RegularGridInterpolator
    dim = sc["dim"]
    d, kw = meshing.domain(sc)
    bb = shapes.tree(sc["tree"], sc["u"] * sc["scale"]).bbox
    f = desired(sc, bb)
    h0 = sc["h0"] * sc["scale"]
    if sc["form"] == "const" and not sc["object"]:
        size = h0
    elif sc["object"]:
        vs = [np.linspace(bb[2 * n] - 3 * h0, bb[2 * n + 1] + 3 * h0, 30 if dim == 2 else 15) for n in range(dim)]
        g = np.stack([a.ravel() for a in np.meshgrid(*vs, indexing="ij")], 1)
        size = sm.SizeFunction(tuple(float(b) for b in bb),
                               RegularGridInterpolator(vs, f(g).reshape([len(v) for v in vs]), bounds_error=False, fill_value=None), hmin=h0)
    else:
        size, kw["h0"] = f, h0
    kw.update(verbose=0, max_iter=sc["iters"], seed=sc["seed"], **sc["opts"])
    n = sc["ranks"]
    if n == 1:
        p, t = sm.generate_mesh(d, size, comm=fakempi.serial(), **kw)
    else:
        w = fakempi.run_world(n, lambda comm: sm.generate_mesh(d, size, comm=comm, axis=sc["axis"], **kw), "buffered", sc["seed"], timeout=200)
        bad = [r for r in range(n) if w.outcome[r][0] != "ok"]
        if bad or w.deadlock:
            raise AssertionError("rank %s: %s" % (bad, w.outcome[bad[0]] if bad else w.deadlock))
        p, t = w.outcome[0][1]
    ed = np.unique(np.sort(np.vstack([t[:, list(c)] for c in itertools.combinations(range(dim + 1), 2)]), axis=1), axis=0)
    h = np.rint(f((p[ed[:, 0]] + p[ed[:, 1]]) / 2) / h0 * 1000).astype(int)
    Q = np.rint((p - p.min(0)) / h0 * 100)
    # the least size at the first points
    grid = np.stack([a.ravel() for a in np.meshgrid(*[np.arange(bb[2 * k], bb[2 * k + 1] + h0, h0) for k in range(dim)], indexing="ij")], 1)
    grid = grid[shapes.tree(sc["tree"], sc["u"] * sc["scale"]).eval(grid) < 0]
    least = 1000 * (f(grid).min() / h0 if len(grid) and not sc["opts"].get("r0m_is_h0") else 1.0)
    return {"dim": dim, "Q": Q.astype(int).tolist(), "T": (t + 1).tolist(), "E": [[int(a) + 1, int(b) + 1, int(x)] for (a, b), x in zip(ed, h)],
            "least": int(round(least)), "uniform": sc["form"] == "const"}


def scenario(rng):
    sc = meshing.scenario(rng)
    dim, o = sc["dim"], sc["opts"]
    sc["iters"] = rng.choice((25, 40, 50))
    for k in ("geps_mult", "delta_t"):
        o.pop(k, None)
    sc["form"] = rng.choice(("const", "radial", "wave", "linear", "linear"))
    sc["object"], sc["along"], sc["grow"], sc["ranks"] = rng.random() < .4, rng.randrange(dim), rng.choice((1, 2, 3)) if dim == 2 else 1, 1
    if dim == 2:
        sc["u"] = rng.choice((4.0, 5.0, 6.0))
    if rng.random() < .1:
        sc["ranks"], sc["axis"], sc["callable"] = rng.choice((2, 3)) if dim == 2 else 2, rng.randrange(dim), False
        a = []
        for k in range(dim):
            a += [0, (rng.randint(5, 6) if dim == 2 else 4) if k != sc["axis"] else sc["ranks"] * 9]
        sc["tree"], sc["u"] = {"kind": "box", "a": a}, 1.0
        if sc["form"] not in ("const", "linear"):
            sc["form"] = "const"
        sc["along"], sc["grow"] = (sc["axis"] + 1) % dim, 1
    return sc


def body(c):
    rng = random.Random(c.seed * 61 + 27)
    scs = [scenario(rng) for _ in range(c.scale(220, 2000))]
    cases, keys = [], []
    for n, (sc, r) in enumerate(zip(scs, core.pmap(run, scs, timeout=300, chunk=1))):
        key = "%d:%s:u%s:%s %s %s:%d iterations on %d:%s" % (n, sc["tree"], sc["u"], sc["form"], sc["object"], sc["grow"] if sc["form"] == "linear" else "",
                                                            sc["iters"], sc["ranks"], sc["opts"])
        v = c.outcome(r, key, sc)
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.extra.update(meshes=len(cases), edges=sum(len(x["E"]) for x in cases))
    c.cases("Sizes", cases, keys, timeout=850)
    c.assumptions += ["averages over the edges of a mesh after 25 iterations or more, with the default threshold and step"]


if __name__ == "__main__":
    core.main("C27", body)
