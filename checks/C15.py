"""C15: mesh sizes from velocity models (Sizing.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import sizing


def sgn(x):
    return (x > 0) - (x < 0)


def call(job):
    import numpy as np
    from SeismicMesh import get_sizing_function_from_segy
    kw, boxlen, zeros, dim = job
    vp = np.full((3, 4) if dim == 2 else (3, 4, 2), 2000.0)
    vp[1, 1] += 500
    if zeros:
        vp[zeros - 1, 0] = 0
    box = ((-300., 0., 0., 400., 0., 200., 0.)[:boxlen])
    c = {"kind": "call", "unknown": any(k not in OPTS for k in kw), "boxlen": boxlen, "zeros": bool(zeros)}
    for k in ("wl", "grad", "grade", "dt"):
        c[k] = sgn(kw.get(k, 0))
    c["freq"], c["cr"], c["order"] = sgn(kw.get("freq", 2)), sgn(kw.get("cr_max", 1)), sgn(kw.get("space_order", 1))
    c["pad"] = sgn(kw.get("domain_pad", 0))
    st = kw.get("pad_style", "edge")
    c["style"] = st if st in ("edge", "constant", "linear_ramp") else "other"
    w = kw.get("vp_water", 1500.)
    c["water"] = 0 if w is None else 1 if 1300 <= w <= 1800 else 2
    try:
        get_sizing_function_from_segy(None, box, comm=fakempi.serial(), velocity_data=vp, nz=3, nx=4, ny=2 if dim == 3 else None, **kw)
        c["refused"] = "no"
    except Exception as e:
        c["refused"] = type(e).__name__
        if isinstance(e, AssertionError):
            c["refused"] = "ValueError"
    return c


OPTS = {"hmin", "hmax", "wl", "freq", "cr_max", "dt", "space_order", "grad", "grade", "stencil_size", "pad_style", "domain_pad",
        "units", "vp_water"}
CLASSES = {"wl": (3, -1, 0), "freq": (2.5, -1.0), "grad": (50.0, -5.0, 0.0), "grade": (0.15, -0.2, 0.0), "dt": (0.001, -0.001, 0.0),
           "cr_max": (0.5, -0.5, 0.0), "space_order": (2, -1), "domain_pad": (120.0, -10.0, 0.0),
           "pad_style": ("edge", "constant", "linear_ramp", "mirror", None), "vp_water": (1500.0, 1300.0, 1800.0, 1299.0, 1801.0, None, 0.0),
           "hmin": (20.0,), "hmax": (900.0,), "stencil_size": (3, 2)}


def body(c):
    rng = random.Random(c.seed * 7 + 15)
    jobs = []
    for n in range(c.scale(900, 8000)):
        jobs.append((*sizing.rand_case(rng), 1))
    cases, keys = [], []
    for j, r in zip(jobs, core.pmap(sizing.run, jobs, timeout=60)):
        key = "%s %s %s %s" % (j[0]["d"], sorted(j[1].items(), key=str), j[0]["sp"], str(j[0]["vp"])[:60])
        v = c.outcome(r, key, j)
        if v is not None:
            cases.append(v)
            keys.append(key)
    # single options and pairs of options, valid and not
    jobs, K = [], sorted(CLASSES)
    for k in K:
        for v in CLASSES[k]:
            for z in (0, 1, 3):
                jobs.append(({k: v}, 4, z, 2))
    for k in K:
        for m in K:
            if k < m:
                for v in CLASSES[k]:
                    for w in CLASSES[m]:
                        jobs.append(({k: v, m: w}, 4, rng.choice((0, 0, 1, 2)), 2))
    for n in range(c.scale(400, 4000)):
        kw = {k: CLASSES[k][0] if rng.random() < .8 else rng.choice(CLASSES[k]) for k in rng.sample(K, rng.randint(0, 8))}
        if rng.random() < .1:
            kw[rng.choice(("hmim", "gradient", "Grade", "padding", "wavelength"))] = 1.0
        dim = rng.choice((2, 2, 3))
        jobs.append((kw, 2 * dim if rng.random() < .9 else rng.choice((2, 3, 5, 7)), rng.choice((0, 0, 1, 2, 3)), dim))
    for j, r in zip(jobs, core.pmap(call, jobs, timeout=60)):
        key = "call %s %s %s %s" % (sorted(j[0].items()), *j[1:])
        v = c.outcome(r, key, j)
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.cases("Sizing", cases, keys, timeout=850)
    c.extra.update(calls=len(jobs), fields=len(cases) - len(jobs))


core.main("C15", body)
