"""C29: meshes of velocity models (Pipeline.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi


def velocities(sc):
    """velocities of a model that gets faster with depth and, or, along the other axes"""
    n, a, b = sc["n"], sc["slow"], sc["fast"]
    V = []
    for k in itertools.product(*[range(m) for m in n]):
        w = 0.0
        for d in range(len(n)):
            x = k[d] / (n[d] - 1)
            w += sc["mix"][d] * (1 - x if sc["flip"][d] else x)
        V.append(int(round(a + (b - a) * w / max(1, sum(sc["mix"])))))
    return V


def run(sc):
    import numpy as np
    import SeismicMesh as sm
    dim, h, n = sc["dim"], sc["hmin"], sc["n"]
    V = velocities(sc)
    sp = sc["g"] * h
    o = sc["origin"]
    bbox = []
    for d in range(dim):
        lo = -sp * (n[d] - 1) if d == 0 else o * h
        bbox += [float(lo), float(lo + sp * (n[d] - 1))]
    bbox = tuple(bbox)
    unit = sc["units"]
    vp = np.array(V, dtype=float).reshape(n) / (1000.0 if unit == "km-s" else 1.0)
    kw = dict(velocity_data=vp, hmin=h, wl=sc["wl"], freq=sc["freq"], units=unit)
    if sc["pad"]:
        kw.update(domain_pad=float(sc["pad"] * sp), pad_style="edge")
    if sc["cap"]:
        kw["hmax"] = sc["cap"] * h / 1000
    dom = sm.Rectangle(bbox) if dim == 2 else sm.Cube(bbox)
    opts = dict(verbose=0, max_iter=sc["iters"], seed=sc["seed"], r0m_is_h0=sc["abs"])

    def mesh(comm):
        f = sm.get_sizing_function_from_segy(None, bbox, comm=comm, **kw)
        return sm.generate_mesh(dom, f, comm=comm, **opts)
    if sc["ranks"] == 1:
        p, t = mesh(fakempi.serial())
    else:
        opts["axis"] = 1
        w = fakempi.run_world(sc["ranks"], mesh, "buffered", sc["seed"], timeout=250)
        bad = [r for r in range(sc["ranks"]) if w.outcome[r][0] != "ok"]
        if bad or w.deadlock:
            raise AssertionError("rank %s: %s" % (bad, w.outcome[bad[0]] if bad else w.deadlock))
        p, t = w.outcome[0][1]
    p, t = np.asarray(p), np.asarray(t)
    Q = np.rint((p - np.array(bbox[::2])) / h * 100).astype(int)
    ed = np.unique(np.sort(np.vstack([t[:, list(c)] for c in itertools.combinations(range(dim + 1), 2)]), axis=1), axis=0)
    return {"dim": dim, "V": V, "G": sc["g"] * 100, "n": list(n), "pad": sc["pad"] * sc["g"] * 100, "num": 1000,
            "den": int(round(sc["wl"] * sc["freq"] * h)), "cap": sc["cap"] or 1000000, "Q": Q.tolist(), "T": (t + 1).tolist(),
            "E": (ed + 1).tolist(), "abs": sc["abs"]}


def scenario(rng):
    dim = rng.choice((2, 2, 2, 3))
    sc = {"dim": dim, "hmin": float(rng.choice((20, 50, 100, 250))), "g": rng.choice((2, 3, 4)) if dim == 2 else rng.choice((2, 3)),
          "origin": rng.choice((0, 0, -7, 30)), "seed": rng.randint(0, 99999), "iters": rng.choice((25, 40, 50)),
          "wl": rng.choice((3, 4, 5, 8)), "units": rng.choice(("m-s", "m-s", "km-s")), "ranks": 1, "abs": rng.random() < .5}
    ext = rng.randint(18, 28) if dim == 2 else rng.randint(9, 11)
    sc["n"] = [max(3, int(round((ext + rng.choice((0, 0, 6 if dim == 2 else 2))) / sc["g"]))) + 1 for _ in range(dim)]
    # frequency such that the slowest velocity asks for 1 to 1.5 minimal lengths
    sc["slow"] = rng.choice((1500, 1800, 2500))
    s = rng.choice((0.9, 1.0, 1.2, 1.5))
    sc["freq"] = max(1, round(sc["slow"] / (s * sc["wl"] * sc["hmin"]) * 20)) / 20
    sc["fast"] = int(sc["slow"] * rng.choice((1.5, 2.0, 2.5) if dim == 2 else (1.3, 1.6)))
    m = [rng.choice((0, 1, 2)) for _ in range(dim)]
    sc["mix"] = m if any(m) else [1] + [0] * (dim - 1)
    sc["flip"] = [rng.random() < .7] + [rng.random() < .5 for _ in range(dim - 1)]
    sc["pad"] = rng.choice((0, 0, 1, 3)) if dim == 2 else rng.choice((0, 0, 1))
    sc["cap"] = rng.choice((0, 0, 0, 1600, 2000))
    if rng.random() < .12:
        sc["ranks"] = 2
        sc["n"][1] = int(round((36 if dim == 2 else 20) / sc["g"])) + 1
        if dim == 3:
            sc["n"][0] = sc["n"][2] = int(round(6 / sc["g"])) + 1
    return sc


def body(c):
    rng = random.Random(c.seed * 67 + 29)
    scs = [scenario(rng) for _ in range(c.scale(160, 1600))]
    cases, keys = [], []
    for n, (sc, r) in enumerate(zip(scs, core.pmap(run, scs, timeout=300, chunk=1))):
        key = "%d:%s" % (n, " ".join("%s=%s" % kv for kv in sorted(sc.items())).replace(" ", ","))
        v = c.outcome(r, key, sc)
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.extra.update(meshes=len(cases), edges=sum(len(x["E"]) for x in cases), padded=sum(s["pad"] > 0 for s in scs),
                   parallel=sum(s["ranks"] > 1 for s in scs), three_d=sum(s["dim"] == 3 for s in scs))
    c.cases("Pipeline", cases, keys, timeout=850)
    c.assumptions += ["velocities that vary linearly; lengths as averages over the mesh after 25 iterations or more"]


if __name__ == "__main__":
    core.main("C29", body)
