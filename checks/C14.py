"""C14: gradation limiting (Gradation.tla: all orders of lowering end in the closed form; Limited.tla: recorded calls)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi

BIG = 2 * 10 ** 9


def fx(x, u):
    return int(round(float(x) / u)) if x == x and abs(x) / u < BIG else BIG


def run(job):
    """many fields on one grid; u: length of one unit; lev: fields in units"""
    import numpy as np
    from _FastHJ import limgrad
    d, fields, r, u, how, small, tol = job
    out = []
    for f in fields:
        a = np.array(f, dtype=float) * u
        a0 = a.copy()
        if how[0] == "lib":
            elen, rate = how[1] * u, r / how[1]
            g = np.asarray(limgrad(list(d), elen, rate, 10000, a)).ravel()
            h = np.asarray(limgrad(list(d), elen, rate, 10000, g.copy())).ravel()
        else:     # through the sizing pipeline: velocities that make the size field a, spacing elen on all axes
            g, h = [], None
            from SeismicMesh import get_sizing_function_from_segy as gs
            elen, rate = how[1] * u, r / how[1]
            dd = d if d[2] > 1 or how[2] == 3 else d[:2]
            box = []
            for k, n in enumerate(dd):
                sp = elen * how[3][k]
                box += [-n * sp * .5, n * sp * .5]
            def one(field):
                vp = field.reshape(dd, order="F")
                s = gs(None, tuple(box), comm=fakempi.serial(), velocity_data=vp, nz=dd[0], nx=dd[1], ny=dd[2] if len(dd) == 3 else None,
                       wl=1, freq=1.0, hmin=1e-6, hmax=1e9, grade=rate)
                ax = np.meshgrid(*[np.linspace(box[2 * k], box[2 * k + 1], n, dtype=np.float32) for k, n in enumerate(dd)], indexing="ij")
                return np.asarray(s.eval(tuple(ax))).ravel(order="F")
            g = one(a)
            h = one(g.copy())
        if not np.array_equal(a, a0):
            raise AssertionError("the input was modified")
        out.append({"d": list(d), "f": list(f), "g": [fx(x, u) for x in g], "h": [fx(x, u) for x in h], "r": r,
                    "tol": tol, "small": small})
    return out


def body(c):
    rng = random.Random(c.seed + 14)
    # the transition system: all fields, all orders
    for g in c.scale([(2, 2, 1, 4, 1), (4, 1, 1, 4, 1), (3, 2, 1, 3, 1)],
                     [(2, 2, 1, 5, 1), (5, 1, 1, 5, 1), (3, 2, 1, 4, 1), (2, 2, 2, 3, 1), (3, 2, 1, 5, 2), (3, 3, 1, 3, 1)]):
        r = core.tlc("Gradation", consts=["NX = %d" % g[0], "NY = %d" % g[1], "NZ = %d" % g[2],
                                          "Vals = {%s}" % ", ".join(str(3 * v if g[4] == 2 else 2 * v) for v in range(1, g[3] + 1)),
                                          "R = %d" % g[4]], timeout=850)
        c.add(r)
    # all fields on small grids, replayed in the code: values k, rate 1/2 or 1 per node, in units of 1/16
    jobs = []
    grids = [((1, 1, 1), 3), ((1, 4, 1), 4), ((4, 1, 1), 4), ((1, 1, 4), 4), ((3, 2, 1), 3), ((2, 3, 1), 3), ((3, 1, 2), 3),
             ((2, 2, 2), c.scale(2, 3)), ((3, 3, 1), 2), ((1, 3, 3), 2), ((3, 1, 3), 2)]
    if c.thorough:
        grids += [((5, 1, 1), 5), ((1, 6, 1), 4), ((3, 2, 2), 2), ((4, 3, 1), 2), ((4, 2, 1), 3)]
    for d, v in grids:
        n = d[0] * d[1] * d[2]
        fs = [[16 + 16 * x for x in f] for f in itertools.product(range(v), repeat=n)]
        for r in (8, 16) if v > 2 else (4,):
            if n > 6 and len(fs) > 300 and not c.thorough:
                sub = rng.sample(fs, 300)
            else:
                sub = fs
            for k in range(0, len(sub), 200):
                u, how = rng.choice(((1.0, ("lib", 8)), (100.0 / 16, ("lib", 4)), (1 / 16, ("lib", 16))))
                jobs.append((d, sub[k:k + 200], r, u, how, True, 0))
    c.extra["exhaustive_grids"] = ["%s values %d" % g for g in grids]
    # through the sizing function: unequal spacings, the smallest of them counts
    for k in range(c.scale(60, 600)):
        d = rng.choice([(3, 4, 1), (5, 2, 1), (2, 2, 1), (6, 5, 1), (2, 3, 4), (3, 2, 2), (4, 4, 3)])
        n = d[0] * d[1] * d[2]
        fs = [[16 * rng.randint(1, 40) for _ in range(n)] for _ in range(4)]
        m = [1, 1, 1]
        if rng.random() < .7:
            m = [rng.choice((1, 2, 5)) for _ in range(3)]
            m[rng.randrange(3 if d[2] > 1 else 2)] = 1
        jobs.append((d, fs, rng.choice((4, 8, 24)), rng.choice((1.0, 6.25)), ("segy", 16, 3 if d[2] > 1 else 2, m), True, 0))
    # larger fields of arbitrary values in 1/1000 (the numerical tolerance is 3.2e-5 of the smallest value)
    for k in range(c.scale(40, 300)):
        d = rng.choice([(30, 20, 1), (1, 200, 1), (150, 1, 1), (8, 9, 7), (20, 1, 30), (40, 40, 1), (12, 3, 14)])
        n = d[0] * d[1] * d[2]
        s = rng.random()
        if s < .3:
            f = [rng.choice((20000, 1000000)) for _ in range(n)]
            f = [x if rng.random() < .05 else 1000000 for x in f]
        elif s < .7:
            f = [rng.randint(1000, 100000) for _ in range(n)]
        else:
            f = [rng.choice((1000, 50000)) + 10 * q for q in range(n)]
        how = ("lib", rng.choice((500, 1000)))
        if rng.random() < .3 and min(d[:2]) > 1:
            how = ("segy", 1000, 3 if d[2] > 1 else 2, [1, 1, 1])
        jobs.append((d, [f], rng.choice((100, 350, 1500)), 0.001, how, n <= 200, max(1, int(min(f) * 3.2e-5) + 1)))
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, core.pmap(run, jobs, timeout=120))):
        key = "%s r%s %s %s" % (j[0], j[2], j[4], str(j[1][0])[:40])
        v = c.outcome(r, key, {"job": j})
        if v is not None:
            cases += v
            keys += [key] * len(v)
    c.cases("Limited", cases, keys, timeout=850)


core.main("C14", body)
