"""C11: values depend on the arguments only, and arguments are not modified (History.tla, HistoryTrace.tla)."""
import contextlib
import hashlib
import io
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import par


def digest(o, h=None, depth=0, seen=None):
    """everything that can be told from a value, bit by bit"""
    import numpy as np
    top = h is None
    h = h or hashlib.sha256()
    seen = seen if seen is not None else set()

    def put(*a):
        h.update(repr(a).encode())
    if isinstance(o, np.ndarray):
        put("arr", o.shape, o.dtype.str)
        if o.dtype == object:
            for x in o.ravel():
                digest(x, h, depth + 1, seen)
        else:
            h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (str, bytes, int, float, complex, bool, type(None), np.generic)):
        put(type(o).__name__, o)
    elif isinstance(o, (list, tuple)):
        put(type(o).__name__, len(o))
        for x in o:
            digest(x, h, depth + 1, seen)
    elif isinstance(o, dict):
        put("dict", len(o))
        for k in o:                       # the order counts
            digest(k, h, depth + 1, seen)
            digest(o[k], h, depth + 1, seen)
    elif type(o).__name__ == "module":
        put("module", o.__name__)
    elif isinstance(o, type) or callable(o) and hasattr(o, "__code__"):
        put("code", getattr(o, "__qualname__", ""))
        if id(o) in seen:
            return None
        seen.add(id(o))
        for cell in getattr(o, "__closure__", None) or ():
            digest(cell.cell_contents, h, depth + 1, seen)
    elif hasattr(o, "__self__"):
        put("method", o.__name__)
        digest(o.__self__, h, depth + 1, seen)
    elif hasattr(o, "__dict__") and id(o) not in seen and depth < 12:
        seen.add(id(o))
        put("obj", type(o).__name__)
        d = vars(o)
        for k in sorted(d):
            put(k)
            digest(d[k], h, depth + 1, seen)
    else:
        put("other", type(o).__name__)
    return h.hexdigest()[:20] if top else None


def tri(n, dim, seed, dirty=False):
    """a mesh of a lattice, disturbed"""
    import itertools
    import numpy as np
    r = np.random.RandomState(seed)
    ax = np.arange(n + 1)
    p = np.stack([a.ravel() for a in np.meshgrid(*[ax] * dim, indexing="ij")], 1).astype(float)
    p += r.uniform(-.2, .2, p.shape)
    t = []
    for q in itertools.product(range(n), repeat=dim):
        for perm in itertools.permutations(range(dim)):
            v, c = list(q), [tuple(q)]
            for d in perm:
                v[d] += 1
                c.append(tuple(v))
            t.append([int(sum(x * (n + 1) ** (dim - 1 - k) for k, x in enumerate(w))) for w in c])
    t = np.array(t)
    if dirty:
        p = np.vstack([p, p[:3], [[99.0] * dim]])
        t = np.vstack([t, t[0][::-1]])
        t[1][t[1] == 0] = len(p) - 4
    return p, t


class Calls:
    """The calls with fixed arguments.  Every entry: (build the arguments, call with them)."""
    names = []

    def __init__(self):
        import numpy as np
        import SeismicMesh as sm
        from SeismicMesh import decomp, geometry as g, migration
        self.verbose = 0
        ser = fakempi.serial
        E = []

        def add(name, args, fn):
            E.append((name, args, fn))

        def gen(name, dom, size, **kw):
            add(name, lambda: {"domain": dom(), "edge": size(), "kw": {k: (v() if callable(v) else v) for k, v in kw.items()}},
                lambda a: sm.generate_mesh(a["domain"], a["edge"], comm=ser(), verbose=self.verbose, **a["kw"]))

        def grid():
            from scipy.interpolate import RegularGridInterpolator
            vs = [np.linspace(0, 8, 6)] * 2
            return sm.SizeFunction((0.0, 8.0, 0.0, 8.0), RegularGridInterpolator(vs, 1.0 + .1 * np.arange(36.).reshape(6, 6) / 5,
                                                                                 bounds_error=False, fill_value=None), hmin=1.0)

        def var():
            return lambda x: 1.0 + .1 * np.sqrt((x ** 2).sum(1))
        R = lambda: sm.Rectangle((0.0, 8.0, 0.0, 8.0))
        Hole = lambda: sm.Difference([R(), sm.Disk([4.0, 4.0], 1.5)])
        gen("rect", R, lambda: 1.0, max_iter=4, seed=0)
        gen("rect seed", R, var, h0=1.0, max_iter=4, seed=7)
        gen("hole grid", Hole, grid, max_iter=3, seed=1, perform_checks=True)
        gen("pfix", Hole, lambda: 1.0, max_iter=4, pfix=lambda: np.array([[1.5, 1.5], [6.0, 2.0]]))
        gen("subdomains", R, lambda: 1.0, max_iter=4, subdomains=lambda: [sm.Disk([4.0, 4.0], 2.0)])
        gen("points", R, lambda: 1.0, max_iter=4, points=lambda: np.random.RandomState(3).uniform(0, 8, (70, 2)))
        gen("callable", lambda: R().eval, var, h0=1.0, bbox=(0.0, 8.0, 0.0, 8.0), max_iter=3, mesh_improvement=False)
        gen("cube", lambda: sm.Cube((0.0, 4.0, 0.0, 4.0, 0.0, 4.0)), lambda: 1.0, max_iter=3)
        gen("ball r0m", lambda: sm.Ball([0.0, 0.0, 0.0], 2.5), var, h0=1.0, max_iter=3, r0m_is_h0=True, seed=5)
        add("sliver", lambda: {"p": np.random.RandomState(1).uniform(0, 4, (60, 3)), "d": sm.Cube((0.0, 4.0, 0.0, 4.0, 0.0, 4.0))},
            lambda a: sm.sliver_removal(a["p"], a["d"], 1.0, comm=ser(), verbose=self.verbose, max_iter=4))

        def seg(name, vp, **kw):
            add(name, lambda: {"vp": vp(), "kw": dict(kw), "bbox": (-300.0, 0.0, 0.0, 400.0)},
                lambda a: (lambda f: (f.bbox, f.hmin, f.eval(np.array([[-150.0, 200.0], [-10.0, 333.0], [-299.0, 1.0]]))))(
                    sm.get_sizing_function_from_segy(None, a["bbox"], comm=ser(), velocity_data=a["vp"], **a["kw"])))
        vp = lambda: np.array([[0.0, 0.0, 0.0, 0.0], [1500.0, 2000.0, 2500.0, 1800.0], [3000.0, 3100.0, 2000.0, 4000.0]])
        seg("sizing", vp, wl=4, freq=2.0, grade=0.15, hmin=20.0, hmax=900.0)
        seg("sizing pad", vp, wl=4, grad=30.0, stencil_size=3, domain_pad=150.0, pad_style="linear_ramp", hmin=20.0)
        seg("sizing km", lambda: np.array([[1, 2, 2, 2], [2, 3, 3, 2], [4, 4, 5, 5]]), wl=3, units="km-s", hmin=20.0)
        for dim in (2, 3):
            n = 4 if dim == 2 else 2
            mk = lambda dim=dim, n=n: dict(zip("pt", tri(n, dim, dim)))
            dk = lambda dim=dim, n=n: dict(zip("pt", tri(n, dim, dim, True)))
            add("fix_mesh%d" % dim, dk, lambda a, dim=dim: g.fix_mesh(a["p"], a["t"], dim=dim, delete_unused=True))
            add("boundary%d" % dim, mk, lambda a, dim=dim: (g.get_boundary_vertices(a["t"], dim), g.get_boundary_entities(a["p"], a["t"], dim),
                                                            g.get_edges(a["t"], dim), g.vertex_to_entities(a["p"], a["t"], dim),
                                                            g.simp_vol(a["p"], a["t"]), g.get_centroids(a["p"], a["t"], dim)))
            add("external%d" % dim, lambda dim=dim, mk=mk: dict(mk(), e=[0.5] * dim + [1.6] * dim),
                lambda a, dim=dim: g.remove_external_entities(a["p"], a["t"], a["e"], dim=dim))
            add("enqueue%d" % dim, lambda dim=dim, mk=mk: dict(mk(), e=[[-9.0] * dim + [.2] + [9.0] * (dim - 1), [-2.0] * dim + [9.0] * dim,
                                                                        [1.5] + [-9.0] * (dim - 1) + [9.0] * dim]),
                lambda a, dim=dim: migration.enqueue(a["e"], a["p"], a["t"], 1, 3, dim=dim))
        mk = lambda: dict(zip("pt", tri(4, 2, 9)))
        add("winded", mk, lambda a: (g.get_winded_boundary_edges(a["t"]), g.get_boundary_edges(a["t"]), g.simp_qual(a["p"], a["t"])))
        add("smooth", lambda: dict(mk(), f=np.array([[1.0, 1.0]])), lambda a: (g.laplacian2_fixed_point(a["p"], a["t"], pfix=a["f"]),
                                                                             g.laplacian2(a["p"], a["t"], verbose=0, pfix=a["f"])))
        add("linter", mk, lambda a: (g.linter(a["p"], a["t"]), g.delete_boundary_entities(a["p"], a["t"], min_qual=.4, verbose=0)))
        mk3 = lambda: dict(zip("pt", tri(2, 3, 9)))
        add("angles", mk3, lambda a: (g.calc_dihedral_angles(a["p"], a["t"]), g.calc_re_ratios(a["p"], a["t"], dim=3),
                                      g.calc_circumsphere_grad(*[a["p"][a["t"][:, k]] for k in range(4)]), g.get_facets(a["t"]),
                                      g.get_boundary_facets(a["t"])))
        add("blocker", lambda: {"p": np.random.RandomState(4).uniform(0, 8, (40, 2))},
            lambda a: decomp.blocker(points=a["p"], rank=0, num_blocks=3, axis=1))

        def shapes():
            return {"d": [sm.Union([R(), sm.Disk([8.0, 4.0], 3.0)], smoothness=.5), sm.Intersection([R(), sm.Disk([4.0, 4.0], 4.5)]), Hole(),
                          sm.Rectangle((0.0, 4.0, 0.0, 2.0), rotate=[.4, 0.0, 0.0], translate=[1.0, 0.0], stretch=[1.5, 1.0]),
                          sm.Difference([R(), sm.Disk([4.0, 4.0], 1.5), sm.Disk([1.0, 1.0], 1.0)], smoothness=.3)],
                    "x": np.random.RandomState(8).uniform(-2, 12, (30, 2))}
        add("shapes", shapes, lambda a: [d.eval(a["x"]) for d in a["d"]])
        add("solids", lambda: {"d": [sm.Torus(2.0, 1.0), sm.Cylinder(2.0, 1.0), sm.Prism(2.0, 1.0), sm.Cube((0.0, 1.0, 0.0, 2.0, 0.0, 1.0), rotate=[.2, 0.0, .4]),
                                     sm.Repeat((-4.0, 4.0, -4.0, 4.0, -4.0, 4.0), sm.Ball([0.0, 0.0, 0.0], 1.0), [2.0, 3.0, 4.0])],
                               "x": np.random.RandomState(9).uniform(-3, 3, (30, 3))},
            lambda a: [d.eval(a["x"]) for d in a["d"]])
        add("limgrad", lambda: {"d": [4, 5, 1], "f": np.arange(20.0)},
            lambda a: __import__("_FastHJ").limgrad(a["d"], 1.0, .25, 10000, a["f"]))
        self.E = E


NOISE = ("random", "verbose", "anew")


def history(h):
    """run a history; None in it: a noise"""
    import warnings
    import numpy as np
    warnings.simplefilter("ignore")
    C = Calls()
    args = {}
    ids, res, steps = {}, [], []

    def num(o):
        return ids.setdefault(digest(o), len(ids) + 1)
    r = random.Random(str(h))
    n = len(C.E)
    with contextlib.redirect_stdout(io.StringIO()):
        for k in h:
            if k > n:
                w = NOISE[k - n - 1]
                if w == "random":
                    np.random.seed(r.randint(0, 9999))
                    np.random.rand(r.randint(0, 50))
                    random.seed(r.random())
                elif w == "verbose":
                    C.verbose = r.randint(0, 2)
                else:
                    args.clear()
                continue
            name, mk, fn = C.E[k - 1]
            if k not in args:
                args[k] = mk()
            b = num(args[k])
            v = fn(args[k])
            res.append(v)
            steps.append({"call": k, "res": num(v), "before": b, "after": num(args[k])})
    names = {d: k for k, d in ids.items()}
    return {"steps": steps, "late": [num(v) for v in res], "dig": [names.get(s["res"]) for s in steps]}


def sched(job):
    """one scenario under several schedules, sends and levels of verbosity"""
    sc, runs, k = job
    ids, steps = {}, []
    for n, (sem, seed, verb) in enumerate(runs):
        def target(comm):
            import numpy as np
            np.random.seed(seed * 31 + comm.rank)
            random.seed(seed)
            try:
                import copy
                o1 = par.domain(sc)
                s1 = par.size_function(sc)
                pts = par.user_points(sc) if sc.get("points") else None
                b = digest((o1, s1, pts))
                import SeismicMesh as sm
                kw = dict(verbose=verb, max_iter=sc["iters"], axis=sc["axis"], seed=sc["seed"], **o1[1], **s1[1])
                if pts is not None:
                    kw["points"] = pts
                v = sm.generate_mesh(o1[0], s1[0], comm=comm, **kw)
                return digest(v), b, digest((o1, s1, pts))
            except AssertionError as e:
                return "error:%s" % e, "", ""
        w = fakempi.run_world(sc["ranks"], target, sem, seed, timeout=100)
        for r in range(sc["ranks"]):
            o = w.outcome[r]
            if o[0] != "ok":
                raise RuntimeError(w.describe())
            a = [ids.setdefault(x, len(ids) + 1) for x in o[1]]
            steps.append({"call": r + 1, "res": a[0], "before": a[1], "after": a[2]})
    return {"steps": steps, "late": [s["res"] for s in steps], "dig": None}


def body(c):
    n = len(Calls().E)
    L = 2
    r = c.add(core.tlc("History", consts=["NCalls = %d" % n, "NNoise = %d" % len(NOISE), "Len0 = %d" % L, "Emit = TRUE"], timeout=300))
    hs = sorted(json.loads(json.loads(l)[2:]) for l in r.out.splitlines() if l.startswith('"H '))
    if len(hs) != (n + len(NOISE)) ** L:
        raise core.TLCError("%d histories" % len(hs))
    if c.thorough:
        hs += [list(q) for q in __import__("itertools").product(range(1, n + 4), repeat=3)]
    rng = random.Random(c.seed * 3 + 11)
    # every pair is surrounded by repetitions of its first call: A N B A
    full = [[a, rng.randint(n + 1, n + 2), *h[1:], a] if (a := h[0]) <= n else [*h, h[-1]] for h in hs]
    for _ in range(c.scale(60, 600)):
        full.append([rng.randint(1, n + 3) for _ in range(rng.randint(8, 25))])
    single = [[k] for k in range(1, n + 1)]
    refs = {}
    for k, r in zip(single, core.pmap(history, single, timeout=100)):
        v = c.outcome(r, "call %d in a fresh process" % k[0], k)
        if v is None:
            return
        refs[k[0]] = v["dig"][0]
    cases, keys = [], []
    names = [e[0] for e in Calls().E] + list(NOISE)
    for h, r in zip(full, core.pmap(history, full, timeout=200)):
        key = "history " + ",".join(names[k - 1] for k in h)
        v = c.outcome(r, key, h)
        if v is None:
            continue
        # the values in fresh processes, numbered like those of this history
        loc = {d: s["res"] for s, d in zip(v["steps"], v["dig"])}
        ref = [loc.get(refs[k], 0) for k in range(1, n + 1)]
        cases.append({"steps": v["steps"], "ref": ref, "late": v["late"]})
        keys.append(key)
    jobs = []
    for k in range(c.scale(30, 300)):
        sc = par.scenario(rng, domain=rng.choice(["box", "hole", "ell"]), size=rng.choice(["const", "call", "grid"]), points=rng.random() < .4)
        jobs.append((sc, [(rng.choice(["buffered", "sync", "mixed"]), rng.randint(0, 999), rng.choice((0, 1, 2))) for _ in range(4)], k))
    for j, r in zip(jobs, core.pmap(sched, jobs, procs=6, timeout=300)):
        key = "schedules %s" % j[0]
        v = c.outcome(r, key, j)
        if v is not None:
            cases.append({"steps": v["steps"], "ref": [], "late": v["late"]})
            keys.append(key)
    c.extra.update(calls=[e[0] for e in Calls().E], histories=len(full), worlds=4 * len(jobs))
    c.cases("HistoryTrace", cases, keys, timeout=850)


core.main("C11", body)
