"""C25: the parallel triangulation equals the serial one (SameMesh.tla).

One iteration from given points in parallel is compared with one iteration of the same points in serial; after several
iterations, the points with which the ranks enter the last one are triangulated again in serial."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import par


def run(job):
    sc = job[0]
    import numpy as np
    w = par.world(job)
    if any(r["end"] != "ok" for r in w["ranks"]):
        return ("bad", str([[r["end"], str(r["value"])[:150]] for r in w["ranks"]]))
    P, T = w["ranks"][0]["value"]
    if sc["iters"] == 1:
        pts = par.user_points(sc)
    else:
        pts = np.concatenate([np.concatenate(par.iterations(r["log"])[-1]["own"], axis=0) for r in w["ranks"]], axis=0)
    p, t = par.call(sc, fakempi.serial(), points=pts, max_iter=1)
    h = sc["h0"]
    allp = np.concatenate([p, P], axis=0)
    # positions that agree up to round-off get the same number
    from scipy.spatial import cKDTree
    tree = cKDTree(allp)
    num = np.full(len(allp), -1)
    for k, nb in enumerate(tree.query_ball_point(allp, 1e-9 * h)):
        if num[k] < 0:
            num[nb] = k
    # the final moves of points outside onto the boundary are taken back if they turn cells inside out, which depends on their order:
    # the points that are left are paired with the nearest
    ra = [k for k in range(len(p)) if not (num[len(p):] == num[k]).any()]
    rb = [k for k in range(len(p), len(allp)) if not (num[:len(p)] == num[k]).any()]
    for d, a, b in sorted((float(np.linalg.norm(allp[a] - allp[b])), a, b) for a in ra for b in rb) if len(ra) * len(rb) < 400 else []:
        if d < .5 * h and a in ra and b in rb:
            num[b] = num[a]
            ra.remove(a)
            rb.remove(b)
    A = num[np.asarray(t)].tolist()
    B = num[np.asarray(T) + len(p)].tolist()
    return ("case", {"A": A, "B": B, "nA": len(p), "nB": len(P), "minimal": 10})


def body(c):
    rng = random.Random(c.seed * 29 + 7)
    jobs = []
    for dim in (2, 3):
        for ranks in (2, 3, 4, 5) if dim == 2 else (2, 3, 4):
            for k in range(c.scale(30, 250) if dim == 2 else c.scale(10, 80)):
                sc = par.scenario(rng, ranks, dim, domain=rng.choice(["inner", "inner", "ellin"]), points=True,
                                  size=rng.choice(["const", "const", "call"]), iters=rng.choice([1, 1, 2, 3]),
                                  opts={"mesh_improvement": False})
                if dim == 3:
                    sc["L"] = [max(x, 7.0) for x in sc["L"]]
                jobs.append((sc, rng.choice(["buffered", "sync", "mixed"]), k, True))
    res = core.pmap(run, jobs, procs=6, timeout=200, chunk=3)
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, res)):
        key = "run-%d" % n
        v = c.outcome(r, key, j)
        if v is None:
            continue
        if v[0] == "bad":
            c.violation(key + ":" + v[1][:60], v[1], {"job": j})
        else:
            cases.append(v[1])
            keys.append(key)
            c.extra["cells_compared"] = c.extra.get("cells_compared", 0) + len(v[1]["A"])
    c.extra["runs"] = {"one_iteration": sum(1 for j in jobs if j[0]["iters"] == 1), "several": sum(1 for j in jobs if j[0]["iters"] > 1)}
    if cases:
        c.cases("SameMesh", cases, keys, timeout=800)
    c.assumptions += ["points in general position (jittered), blocks wider than the overlap of five edge lengths",
                      "positions are identified up to 1e-9 edge lengths"]


core.main("C25", body, pre=par.install)
