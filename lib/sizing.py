"""Random velocity models and options, run through get_sizing_function_from_segy, recorded for Sizing.tla."""
import os
import random
import tempfile

import fakempi
import models

K = 1000


def rand_case(rng, pad=False):
    dim = rng.choice((2, 2, 3))
    d = [rng.randint(2, 6 if dim == 2 else 4) for _ in range(dim)]
    n = 1
    for x in d:
        n *= x
    s = rng.random()
    top = 20
    if s < .15:
        vp = [rng.randint(1, top)] * n
    elif s < .6:
        vp = [rng.randint(1, top) for _ in range(n)]
    else:
        L = [rng.randint(1, top) for _ in range(d[0])]
        vp = [L[k // (n // d[0])] for k in range(n)]
        for _ in range(rng.randint(0, 2)):
            vp[rng.randrange(n)] = rng.randint(1, top)
    unit = rng.choice(("m-s", "m-s", "km-s", "ft-s", None))
    water = 15
    if rng.random() < .4:
        if rng.random() < .6:
            row = rng.choice((0, d[0] - 1, rng.randrange(d[0])))
            m = n // d[0]
            for k in range(row * m, row * m + m):
                vp[k] = 0
        for _ in range(rng.randint(0, 2)):
            vp[rng.randrange(n)] = 0
        water = rng.choice((None, 13, 16, 18))
    c = {"kind": "size", "dim": dim, "d": d, "vp": vp, "water": water or 15, "a": 0, "b": 4, "grad": 0, "win": [1] * dim,
         "hmin": rng.choice((10, 200, 1500)), "p": 0, "q": 1, "grade8": 0}
    opt = {}
    if water:
        opt["vp_water"] = water * 100.0
    if unit:
        opt["units"] = unit
    if rng.random() < .7:
        c["a"] = opt["wl"] = rng.randint(1, 6)
        if rng.random() < .8:
            c["b"] = rng.randint(1, 8)
            opt["freq"] = c["b"] / 2
    if rng.random() < .4:
        c["grad"] = rng.randint(1, 5)
        opt["grad"] = c["grad"] * 100.0
        s = rng.random()
        if s < .4:
            w = rng.randint(1, 3)
            c["win"], opt["stencil_size"] = [w] * dim, w
        elif s < .8:
            c["win"] = [rng.randint(1, 3 if dim == 3 else 5) for _ in range(dim)]
            opt["stencil_size"] = tuple(c["win"])
        elif dim == 2:
            c["win"] = [10] * dim        # the default
        else:
            c["win"] = [2] * dim
            opt["stencil_size"] = 2.0
    c["hmax"] = rng.choice((2000, 6000, 10 ** 5, 10 ** 7)) if rng.random() < .8 else c["hmin"]
    c["hmax"] = max(c["hmax"], c["hmin"])
    opt["hmin"], opt["hmax"] = c["hmin"] / 10, c["hmax"] / 10
    if rng.random() < .4:
        j, o, cr2 = rng.randint(1, 60), rng.randint(1, 3), rng.randint(1, 4)
        c["p"], c["q"] = 2 * j * o, 100 * cr2
        opt["dt"] = j * .01
        if o > 1 or rng.random() < .5:
            opt["space_order"] = o
        if cr2 != 2 or rng.random() < .5:
            opt["cr_max"] = cr2 / 2
    if rng.random() < .5:
        c["grade8"] = rng.choice((1, 2, 4, 8))
        opt["grade"] = c["grade8"] / 8
    c["sp"] = [rng.randint(1, 5)] * dim if rng.random() < .4 else [rng.randint(1, 5) for _ in range(dim)]
    box = []
    for k in range(dim):
        lo = rng.randint(-40, 40)
        if k == 0 and rng.random() < .7:
            lo = -d[0] * c["sp"][0]
        box += [lo * K, (lo + d[k] * c["sp"][k]) * K]
    c["box"] = box
    c["pad"], c["style"] = 0, "edge"
    if pad or rng.random() < .15:
        while True:
            c["pad"] = rng.choice((rng.randint(1, 4) * c["sp"][0] * K, rng.randint(1, 9) * K, rng.randint(1, 90) * 100))
            # keep away from the limits where the number of cells is a matter of round-off
            if all(c["pad"] % (s * K) in (0,) or c["pad"] % (s * K) > 2 for s in c["sp"]) and c["pad"] // (min(c["sp"]) * K) <= (5 if dim == 2 else 3):
                break
        opt["domain_pad"] = c["pad"] / 10
        c["style"] = rng.choice(("edge", "constant", "linear_ramp"))
        if c["style"] != "edge" or rng.random() < .5:
            opt["pad_style"] = c["style"]
    return c, opt, {"dtype": rng.choice(("float", "float", "float32", "int")), "ints": rng.random() < .3, "np": rng.random() < .5,
                    "nzx": rng.random() < .7, "file": rng.random() < .25, "order": rng.sample(range(3), 3), "sort": rng.choice("FC"),
                    "byte": rng.choice(("big", "little")), "seed": rng.randrange(10 ** 6)}


def velocities(c, opt, how):
    import numpy as np
    v = np.array(c["vp"], dtype=float).reshape(c["d"])
    u = opt.get("units", "m-s")
    v = v * {"m-s": 100.0, "km-s": 0.1, "ft-s": 100.0 / 0.3048}[u]
    if how["dtype"] == "int" and u == "m-s":
        v = v.astype(int)
    elif how["dtype"] == "float32" and not (c["grad"] or u == "ft-s"):
        v = v.astype(np.float32)
    return v


def fx(x):
    x = float(x) * 10          # 100 m is one unit = 1000
    return int(round(x)) if x == x and abs(x) < 2e9 else 2 * 10 ** 9


def record(c, s, rng, mids=12):
    import numpy as np
    c = dict(c)
    c["obox"] = [fx(x) for x in s.bbox]
    c["ohmin"] = fx(s.hmin)
    if not isinstance(s.bbox, tuple) or len(s.bbox) != 2 * c["dim"]:
        raise AssertionError("bbox " + str(s.bbox))
    from SeismicMesh.sizing.size_function import SizeFunction
    if not isinstance(s, SizeFunction):
        raise AssertionError("not a SizeFunction")
    # the shape of the field is observable where the interpolant exposes its nodes; else it follows from the model
    nd = list(getattr(s.cell_size, "values", np.empty(0)).shape)
    if len(nd) != c["dim"]:
        nd = [c["d"][k] + (0 if not c["pad"] else (1 if k == 0 else 2) * (c["pad"] // (c["sp"][k] * K))) for k in range(c["dim"])]
    c["nd"] = nd
    ax = [np.linspace(s.bbox[2 * k], s.bbox[2 * k + 1], n, dtype=np.float32) for k, n in enumerate(nd)]
    if rng.random() < .5:
        g = np.meshgrid(*ax, indexing="ij")
        v = np.asarray(s.eval(tuple(g))).ravel()
    else:
        g = np.array([x.ravel() for x in np.meshgrid(*ax, indexing="ij")]).T
        v = np.asarray(s.eval(g)).ravel()
    c["nodes"] = [fx(x) for x in v]
    c["mids"] = []
    for _ in range(mids):
        h = [rng.randint(0, 2 * (n - 1)) for n in nd]
        p = [[.5 * (float(ax[k][x // 2]) + float(ax[k][(x + 1) // 2])) for k, x in enumerate(h)]]
        c["mids"].append([h, fx(np.asarray(s.eval(np.array(p))).ravel()[0])])
    return c


def run(job):
    import numpy as np
    c, opt, how, ranks = job
    vp = velocities(c, opt, how)
    box = tuple(x / 10 for x in c["box"])
    kw = dict(opt, velocity_data=vp)
    if how["nzx"] or not how.get("shape", True):
        kw.update(nz=c["d"][0], nx=c["d"][1])
        if c["dim"] == 3:
            kw["ny"] = c["d"][2]
    fname, tmp = None, None
    if how["file"] and vp.dtype.kind == "f":
        tmp = tempfile.mkdtemp(prefix="vf_size_")
        up = np.flipud(vp)
        del kw["velocity_data"]
        if c["dim"] == 2:
            fname = os.path.join(tmp, "m.segy")
            models.write_segy(fname, [list(map(float, up[:, k])) for k in range(up.shape[1])], 5)
            kw.pop("nz", None), kw.pop("nx", None)
        else:
            fname = os.path.join(tmp, "m.bin")
            a = up.transpose(np.argsort(how["order"])).ravel(order=how["sort"])
            models.write_bin(fname, [float(x) for x in a], "float64", how["byte"])
            kw.update(nz=c["d"][0], nx=c["d"][1], ny=c["d"][2], byte_order=how["byte"], axes_order=tuple(how["order"]),
                      axes_order_sort=how["sort"], dtype="float64")
    try:
        return run_(c, kw, how, ranks, vp, box, fname)
    finally:
        if tmp:
            models.rm(tmp)


def run_(c, kw, how, ranks, vp, box, fname):
    import numpy as np
    from SeismicMesh import get_sizing_function_from_segy
    v0 = vp.copy()
    o0 = repr(sorted((k, v) for k, v in kw.items() if k != "velocity_data"))

    def target(comm):
        s = get_sizing_function_from_segy(fname, box, comm=comm, **kw)
        if not np.array_equal(vp, v0) or repr(sorted((k, v) for k, v in kw.items() if k != "velocity_data")) != o0:
            raise AssertionError("arguments were modified")
        if comm.rank == 0:
            return record(c, s, random.Random(how["seed"])), None
        return None, ([fx(x) for x in s.bbox], fx(s.hmin), list(np.asarray(s.bbox).shape), isinstance(s.bbox, tuple))
    if ranks == 1:
        return target(fakempi.serial())[0]
    w = fakempi.run_world(ranks, target, "mixed", how["seed"], timeout=60)
    if not w.ok:
        raise AssertionError(w.describe())
    vals = w.values()
    k = vals[0][0]
    for v in vals[1:]:
        if v[1][0] != k["obox"] or v[1][1] != k["ohmin"] or not v[1][3]:
            raise AssertionError("the ranks do not agree on the box: %s %s" % (v[1], k["obox"]))
    return k
