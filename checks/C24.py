"""C24: geometric measures (Measures.tla)."""
import itertools
import math
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def orient(P):
    m = [sub(p, P[0]) for p in P[1:]]
    if len(m) == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def run_mesh(job):
    """a whole mesh of simplices in one array, each with vertices of its own or shared, evaluated at once"""
    import numpy as np
    from SeismicMesh import geometry as g
    dim, simp, u, off, share, seed = job
    rng = random.Random(seed)
    pts, T = [], []
    for P in simp:
        cell = []
        for x in P:
            if share and x in pts:
                cell.append(pts.index(x))
            else:
                pts.append(x)
                cell.append(len(pts) - 1)
        T.append(cell)
    p = np.array(pts, dtype=float) * u + off
    t = np.array(T)
    p0, t0 = p.copy(), t.copy()
    big = 10 ** 8

    def num(x, tol=1e-6):
        x = float(x)
        if not abs(x) < big:
            return big
        r = round(x)
        return int(r) if abs(x - r) <= tol else big

    def rnd(x):
        x = float(x)
        return int(round(x)) if abs(x) < big else big
    vol = np.ravel(g.simp_vol(p, t)) / u ** dim * math.factorial(dim)
    cen = ((g.get_centroids(p, t, dim=dim) - off) / u) * (dim + 1)
    good = [k for k, P in enumerate(simp) if orient(P) != 0]
    qual, rer, dih, vg, cg = {}, {}, {}, {}, {}
    distinct = [k for k, P in enumerate(simp) if len({tuple(x) for x in P}) == dim + 1]
    if dim == 2 and distinct:
        q = np.ravel(g.simp_qual(p, t[distinct])) * 250
        qual = {k: rnd(q[m]) for m, k in enumerate(distinct)}
    if dim == 3:
        flat = [k for k, P in enumerate(simp) if orient(P) == 0 and all(
            any(cross(sub(y, x), sub(z, x))) for x, y, z in itertools.combinations(P, 3))]
        if flat:
            a = np.cos(np.asarray(g.calc_dihedral_angles(p, t[flat])).reshape(-1, 6))
            dih = {k: sorted(rnd(x) for x in np.sign(a[m]) * a[m] ** 2 * 32768) for m, k in enumerate(flat)}
    if good:
        tg = t[good]
        r = np.ravel(g.calc_re_ratios(p, tg, dim=dim)) ** 2 * 64
        if dim == 3:
            a = np.cos(np.asarray(g.calc_dihedral_angles(p, tg)).reshape(-1, 6))
            a = np.where(np.abs(a) < 1e-7, 0, np.sign(a)) * a ** 2 * 32768
            dih.update({k: sorted(rnd(x) for x in a[m]) for m, k in enumerate(good)})
            v = [p[tg[:, s]] for s in range(4)]
            gv = np.asarray(g.calc_volume_grad(v[1], v[2], v[3])) * 6 / u ** 2
            gc = np.asarray(g.calc_circumsphere_grad(*v)) / u * 64
            vg = {k: [num(x, 1e-4) for x in gv[m]] for m, k in enumerate(good)}
            cg = {k: [rnd(x) for x in gc[m]] for m, k in enumerate(good)}
        rer = {k: rnd(r[m]) for m, k in enumerate(good)}
        if len(r) != len(good):
            raise AssertionError("number of ratios")
    if not (np.array_equal(p, p0) and np.array_equal(t, t0)):
        raise AssertionError("arguments were modified")
    if len(vol) != len(simp) or cen.shape != (len(simp), dim):
        raise AssertionError("number of values")
    return [{"kind": "simplex", "dim": dim, "P": P, "vol": num(vol[k], 1e-4), "cen": [num(x, 1e-4) for x in cen[k]],
             "qual": qual.get(k, 0), "rer": rer.get(k, 0), "dih": dih.get(k, []), "vgrad": vg.get(k, []), "cgrad": cg.get(k, [])}
            for k, P in enumerate(simp)]


def run_det(job):
    import numpy as np
    from SeismicMesh import geometry as g
    out = []
    for M in job:
        a = np.array(M, dtype=float)
        d = (g.calc_3x3determinant if len(M) == 3 else g.calc_4x4determinant)(a)
        out.append({"kind": "det", "n": len(M), "M": M, "det": int(round(d)) if abs(d) < 1e8 else 10**8})
    return out


def run_in(job):
    from SeismicMesh import geometry as g
    from SeismicMesh.geometry import utils
    out = []
    for P, pts, u in job:
        e = [x * u for p in P for x in p]
        f = g.vertex_in_entity3 if len(P) == 4 else utils.vertex_in_entity2
        out.append({"kind": "in", "P": P, "pts": pts, "val": [bool(f(tuple(y * u for y in x), e)) for x in pts]})
    return out


def run(job):
    return {"mesh": run_mesh, "det": run_det, "in": run_in}[job[0]](job[1])


def body(c):
    rng = random.Random(c.seed + 24)
    jobs = []
    us = (1.0, 2.0 ** -10, 2.0 ** 10)
    # all triangles of the 3 x 3 lattice, with all labellings; tetrahedra of the 2 x 2 x 2 lattice
    L2 = [list(x) for x in itertools.product(range(3), repeat=2)]
    tri = [list(x) for x in itertools.permutations(L2, 3)]
    L3 = [list(x) for x in itertools.product(range(2), repeat=3)]
    tet = [list(x) for x in itertools.permutations(L3, 4)]
    for dim, all_ in ((2, tri), (3, tet)):
        rng.shuffle(all_)
        for k in range(0, len(all_), 70):
            jobs.append(("mesh", (dim, all_[k:k + 70], us[(k // 70) % 3], rng.choice((0.0, 0.0, 64.0)), rng.random() < .5, k)))
    for _ in range(c.scale(30, 400)):
        dim = rng.choice((2, 3))
        side = 4 if dim == 2 else 2
        sp = []
        while len(sp) < rng.choice((1, 2, 7, 40)):
            P = [[rng.randint(0, side) for _ in range(dim)] for _ in range(dim + 1)]
            if len({tuple(x) for x in P}) == dim + 1:
                sp.append(P)
        jobs.append(("mesh", (dim, sp, rng.choice(us + (0.1, 0.3)) if rng.random() < .6 else 1.0, rng.choice((0.0, 0.0, 0.3, 1024.0)), rng.random() < .5, rng.random())))
    for _ in range(c.scale(20, 200)):
        n = rng.choice((3, 4))
        jobs.append(("det", [[[rng.randint(-9, 9) for _ in range(n)] for _ in range(n)] for _ in range(20)]))
    for _ in range(c.scale(40, 400)):
        dim = rng.choice((2, 3))
        js = []
        while len(js) < 10:
            P = [[rng.randint(0, 4) for _ in range(dim)] for _ in range(dim + 1)]
            if orient(P):
                pts = [[rng.randint(-1, 5) for _ in range(dim)] for _ in range(30)] + P
                u = rng.choice((1.0, 0.25, 4.0))
                # centroid of the cell, scaled up
                js.append(([[x * (dim + 1) for x in p] for p in P], [[sum(p[d] for p in P) for d in range(dim)]] +
                           [[x * (dim + 1) for x in q] for q in pts[:15]] + [[rng.randint(0, 5 * dim) for _ in range(dim)] for _ in range(15)], u))
        jobs.append(("in", js))
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, core.pmap(run, jobs, timeout=60))):
        key = "%s%d" % (j[0], n)
        v = c.outcome(r, key, {"job": j})
        if v is not None:
            cases += v
            keys += [key + ":" + str(x.get("P") or x.get("M")) for x in v]
    c.cases("Measures", cases, keys, timeout=850)
    c.extra["kinds"] = {k: sum(x["kind"] == k for x in cases) for k in ("simplex", "det", "in")}


core.main("C24", body)
