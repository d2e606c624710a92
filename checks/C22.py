"""C22: Laplacian smoothing (Smooth.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import planar


def run(job):
    import numpy as np
    from SeismicMesh import geometry as g
    P, T, fix, mode, steps, u, off = job
    p = np.array(P, dtype=float) * u + off
    t = np.array(T)
    p0, t0 = p.copy(), t.copy()
    pfix = [list(p[v]) for v in fix] if fix else None
    if pfix and steps % 2:
        pfix = np.array(pfix)
    if mode == "direct":
        q, s = g.laplacian2_fixed_point(p, t, pfix=pfix)
    elif mode == "exactly":
        q, s = g.laplacian2(p, t, max_iter=steps, tol=-1e300, verbose=0, pfix=pfix)
    else:
        q, s = g.laplacian2(p, t, max_iter=steps, verbose=0, pfix=pfix)
    if not (np.array_equal(p, p0) and np.array_equal(t, t0)):
        raise AssertionError("arguments were modified")
    if type(q) is not np.ndarray or q.shape != p.shape:
        raise AssertionError("the vertices are not an array of the same shape")
    q = np.asarray(q)
    r = (q - off) / u * 1024
    return {"P": P, "T": T, "fix": fix, "mode": mode, "steps": steps,
            "q": [[int(round(max(-2e8, min(2e8, x)))) if x == x else 10**8 for x in v] for v in r.tolist()],
            "t": [[int(v) for v in x] for x in s.tolist()],
            "same": [bool(np.abs(a - b).max() <= 1e-9 * (u + abs(off))) for a, b in zip(q, p0)]}


def body(c):
    rng = random.Random(c.seed + 22)
    jobs = []
    for k in range(c.scale(700, 6000)):
        P, T = planar.mesh(rng, *((None, None) if rng.random() < .9 else (9, 9)))
        if not T:
            continue
        fix = rng.sample(range(len(P)), rng.randint(1, min(3, len(P)))) if rng.random() < .5 else []
        mode = rng.choice(("direct", "direct", "exactly", "upto"))
        u = rng.choice((1.0, 0.125, 1000.0, 1e-4))
        jobs.append((P, T, fix, mode, rng.choice((1, 1, 2, 5, 20)), u, rng.choice((0., 0., 100.)) if u > 1e-3 else 0.))
    # larger unstructured meshes
    for k in range(c.scale(6, 40)):
        P, T = planar.grid(rng, 14, 14, warp=400, step=4)
        T = planar.flip(rng, P, T, 150)
        P, T = planar.shuffle(rng, P, T)
        jobs.append((P, T, rng.sample(range(len(P)), 2), "direct", 1, 1.0, 0.0))
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, core.pmap(run, jobs, timeout=60))):
        key = "%s%d:%s:fix%s" % (j[3], n, str(j[1])[:80], j[2])
        v = c.outcome(r, key, {"job": j})
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.cases("Smooth", cases, keys, timeout=850)


core.main("C22", body)
