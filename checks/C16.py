"""C16: domain extensions (Sizing.tla, Model.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import models
import sizing


def call(job):
    import numpy as np
    from SeismicMesh import get_sizing_function_from_segy
    width, style, dim = job
    vp = np.arange(24.).reshape((4, 6) if dim == 2 else (4, 3, 2)) * 100 + 1000
    c = {"kind": "call", "wl": 1, "freq": 1, "grad": 0, "grade": 0, "dt": 0, "cr": 1, "order": 1, "pad": (width > 0) - (width < 0),
         "style": style if style in ("edge", "constant", "linear_ramp") else "other", "unknown": False, "boxlen": 2 * dim,
         "zeros": False, "water": 1, "refused": "no"}
    try:
        get_sizing_function_from_segy(None, (-400., 0., 0., 600., 0., 200.)[:2 * dim], comm=fakempi.serial(), velocity_data=vp,
                                      nz=4, nx=vp.shape[1], ny=2, wl=2, domain_pad=width, pad_style=style)
    except Exception as e:
        c["refused"] = type(e).__name__
    return c


def body(c):
    rng = random.Random(c.seed * 11 + 16)
    jobs = []
    for n in range(c.scale(700, 6000)):
        jobs.append((*sizing.rand_case(rng, pad=rng.random() < .95), rng.choice((1, 1, 1, 2, 3))))
    cases, keys = [], []
    for j, r in zip(jobs, core.pmap(sizing.run, jobs, procs=6, timeout=80)):
        key = "%s %s %s %s ranks%d" % (j[0]["d"], sorted(j[1].items(), key=str), j[0]["sp"], str(j[0]["vp"])[:60], j[3])
        v = c.outcome(r, key, j)
        if v is not None:
            cases.append(v)
            keys.append(key)
    # refusals: all widths and styles
    jobs = [(w, st, dim) for w in (-10.0, -1e-9, 0.0, 120.0, 5000.0) for st in ("edge", "constant", "linear_ramp", "mirror", "Edge", "", None, 3)
            for dim in (2, 3)]
    for j, r in zip(jobs, core.pmap(call, jobs, timeout=60)):
        v = c.outcome(r, "call %s %s %s" % j, j)
        if v is not None:
            cases.append(v)
            keys.append("call %s %s %s" % j)
    c.cases("Sizing", cases, keys, timeout=850)
    # written models
    jobs = [models.hdf5_job(rng, True) for _ in range(c.scale(250, 2000))]
    cases, keys = [], []
    for j, r in zip(jobs, core.pmap(models.run_hdf5, jobs, procs=6, timeout=60)):
        key = "hdf5 " + str(j)[:150]
        v = c.outcome(r, key, j)
        if v is not None:
            cases += v
            keys += [key] * len(v)
    c.cases("Model", cases, keys, timeout=850)


core.main("C16", body)
