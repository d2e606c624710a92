"""C05: the blocks partition the points in consecutive slices (Blocks.tla): decomp.blocker on small integer clouds,
and the points that the ranks of real parallel runs start with."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import par


def run(job):
    pts, n, axis, dim, scale, rank = job
    import numpy as np
    from SeismicMesh import decomp
    p = np.array(pts, dtype=float).reshape(-1, dim) * scale
    keep = p.copy()
    case = {"kind": "user", "pts": pts, "n": n, "axis": axis, "dim": dim, "ok": False, "blocks": [], "ext": []}
    try:
        blocks, ext = decomp.blocker(points=p, rank=rank, num_blocks=n, axis=axis)
    except (AssertionError, ValueError):
        return case
    if not np.array_equal(p, keep):
        raise RuntimeError("the points were modified")

    def back(x):
        x = np.asarray(x, dtype=float) / scale
        y = np.rint(x)
        return np.where(x == y, y, 10**6).astype(int)
    case["ok"] = True
    case["blocks"] = [back(b).reshape(-1, dim).tolist() for b in blocks]
    case["ext"] = [back(e).ravel().tolist() for e in ext]
    return case


def start(job):
    """What the ranks of a parallel run begin with."""
    sc = job[0]
    import numpy as np
    w = par.world(job)
    its = [par.iterations(r["log"] or []) for r in w["ranks"]]
    if not all(its):
        return ("bad", str([[r["end"], str(r["value"])[:150]] for r in w["ranks"]]))
    own = [np.concatenate(x[0]["own"], axis=0) if x[0]["own"] else np.zeros((0, sc["dim"])) for x in its]
    if any(len(o) == 0 for o in own):
        return ("bad", "a rank starts without points")
    a = sc["axis"]
    if sc.get("points"):
        p = par.user_points(sc)
        # as a case of blocker: ranks of the coordinates instead of the coordinates
        mine = {tuple(x): n for n, x in enumerate(p.tolist())}
        owners = [sorted(mine.get(tuple(x), -1) for x in o.tolist()) for o in own]
        flat = sorted(x for o in owners for x in o)
        if flat != list(range(len(p))):
            return ("bad", "the blocks of user points are not a partition")
        lim = np.linspace(p[:, a].min(), p[:, a].max(), sc["ranks"] + 1)
        for r, o in enumerate(own):
            if o[:, a].min() < lim[r] - 1e-9 or o[:, a].max() > lim[r + 1] + 1e-9:
                return ("bad", "a user point is outside of its slice")
        return ("ok", None)
    sub = (1000.0 / sc["h0"])
    allp = np.concatenate(own, axis=0)
    dup = len(allp) - len(np.unique(np.round(allp, 9), axis=0))
    return ("case", {"kind": "generated", "n": sc["ranks"], "dup": int(dup),
                     "lo": [int(round(float(o[:, a].min() - sc["o"][a]) * sub)) for o in own],
                     "hi": [int(round(float(o[:, a].max() - sc["o"][a]) * sub)) for o in own],
                     "boxlo": 0, "boxhi": int(round(sc["L"][a] * sub))})


def body(c):
    rng = random.Random(c.seed * 19 + 5)
    jobs = []
    # all multisets of a small line for the axis coordinate, the other coordinate tells points apart
    for n in (1, 2, 3, 4):
        for m in range(1, 9):
            combos = list(itertools.combinations_with_replacement(range(5), m))
            if len(combos) > c.scale(40, 300):
                combos = rng.sample(combos, c.scale(40, 300))
            for co in combos:
                dim = rng.choice([2, 3])
                axis = rng.randrange(dim)
                pts = []
                for k, x in enumerate(co):
                    p = [rng.randint(-2, 2) for _ in range(dim)]
                    p[axis] = x
                    pts.append(p)
                rng.shuffle(pts)
                jobs.append((pts, n, axis, dim, rng.choice([1.0, 0.5]), rng.randrange(n)))
    for _ in range(c.scale(400, 4000)):
        dim = rng.choice([2, 3])
        n = rng.randint(1, 5)
        axis = rng.choice([0, 1, 2, 2, -1, 3] if rng.random() < 0.3 else list(range(dim)))
        side = rng.choice([3, 9, 40])
        pts = [[rng.randint(-side, side) for _ in range(dim)] for _ in range(rng.randint(2, 40))]
        jobs.append((pts, n, axis, dim, rng.choice([1.0, 0.125]), rng.randrange(n)))
    res = core.pmap(run, jobs, timeout=60)
    cases, keys = [], []
    for n, (j, r) in enumerate(zip(jobs, res)):
        v = c.outcome(r, "blocker-%d" % n, j)
        if v is not None:
            cases.append(v)
            keys.append("blocker-%d" % n)
    c.extra["refused"] = sum(1 for v in cases if not v["ok"])
    jobs = []
    for dim in (2, 3):
        for ranks in (2, 3, 4, 5) if dim == 2 else (2, 3, 4):
            for k in range(c.scale(8, 40)):
                sc = par.scenario(rng, ranks, dim, iters=1, points=k % 4 == 3, domain="box", size=rng.choice(["const", "const", "grid"]))
                sc["h0"] = rng.choice([1.0, 1.0, 0.73])
                if sc["size"] == "grid" and not sc["points"]:
                    sc["size"] = "const"
                jobs.append((sc, "mixed", k, True))
    res = core.pmap(start, jobs, procs=6, timeout=130, chunk=3)
    for n, (j, r) in enumerate(zip(jobs, res)):
        key = "start-%d" % n
        v = c.outcome(r, key, j)
        if v is None:
            continue
        if v[0] == "bad":
            c.violation(key + ":" + v[1][:60], v[1], {"job": j})
        elif v[0] == "case":
            cases.append(v[1])
            keys.append(key)
        else:
            c.traces += 1
    c.cases("Blocks", cases, keys, timeout=800)
    c.assumptions += ["a point exactly on the limit of two slices may be in either"]


core.main("C05", body, pre=par.install)
