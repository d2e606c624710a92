"""C18: queries of the connectivity against their definitions (Topology.tla) on complexes enumerated by Complexes.tla."""
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core


def enumerate_complexes(c, consts):
    r = c.add(core.tlc("Complexes", consts=consts + ["Emit = TRUE"], timeout=600))
    hs = [json.loads(json.loads(l)[2:]) for l in r.out.splitlines() if l.startswith('"H ')]
    if len(hs) != r.distinct:
        raise core.TLCError("not every complex was printed")
    hs.sort(key=json.dumps)
    c.extra.setdefault("complexes", []).append({"consts": consts, "n": len(hs)})
    return hs


def big(rng, dim, n, holes, parts, jitter=0):
    """a grid of simplices with holes, in several parts, cells renumbered at random"""
    import itertools
    cells, keep = [], set()
    side = n + 1
    for q in itertools.product(range(n), repeat=dim):
        if any(all(abs(q[d] - h[d]) <= 0 for d in range(dim)) for h in holes) or (parts > 1 and q[0] == n // 2):
            continue
        for perm in itertools.permutations(range(dim)):
            v, cell = list(q), [tuple(q)]
            for d in perm:
                v[d] += 1
                cell.append(tuple(v))
            cells.append(cell)
    if rng.random() < .5:
        cells = [c for c in cells if rng.random() < .9]
    names = {}
    for c in cells:
        for v in c:
            names.setdefault(v, len(names))
    ids = list(range(len(names) + rng.choice((0, 0, 2))))
    rng.shuffle(ids)
    cells = [[ids[names[v]] for v in c] for c in cells]
    return len(ids), cells


def run(job):
    import numpy as np
    from SeismicMesh import geometry as g
    dim, nv, cells, dt = job
    t = np.array(cells, dtype=dt)
    t0 = t.copy()
    p = np.arange(nv * dim, dtype=float).reshape(nv, dim)
    L = lambda a: [[int(x) for x in r] for r in np.asarray(a).tolist()]  # noqa
    edges = g.get_edges(t, dim=dim)
    o = {"dim": dim, "nv": nv, "cells": cells, "edges": L(edges), "uniq": L(g.unique_edges(edges)),
         "facets": [], "bedges": [], "bfacets": [], "wind": []}
    if dim == 2:
        o["bedges"] = L(g.get_boundary_edges(t))
        if len(o["bedges"]):
            o["wind"] = L(g.get_winded_boundary_edges(t))
    else:
        o["facets"] = L(g.get_facets(t))
        o["bfacets"] = L(g.get_boundary_facets(t))
    o["bverts"] = [int(x) for x in g.get_boundary_vertices(t, dim=dim).tolist()]
    o["bents"] = [int(x) for x in g.get_boundary_entities(p, t, dim=dim).tolist()]
    vtoe, ptr = g.vertex_to_entities(p, t, dim=dim)
    o["vte"] = [[int(x) for x in vtoe[ptr[v]:ptr[v + 1]].tolist()] for v in range(nv)]
    if not np.array_equal(t, t0):
        raise AssertionError("the connectivity was modified")
    return o


def body(c):
    rng = random.Random(c.seed + 18)
    hs = []
    for dim, nv, mx, conf in ([(2, 5, 10, "FALSE"), (2, 6, 4, "TRUE"), (3, 6, 3, "TRUE")] if not c.thorough else
                              [(2, 5, 10, "FALSE"), (2, 6, 6, "TRUE"), (3, 6, 5, "TRUE"), (3, 7, 3, "TRUE")]):
        h = enumerate_complexes(c, ["Dim = %d" % dim, "NV = %d" % nv, "MaxCells = %d" % mx, "Conforming = %s" % conf])
        lim = c.scale(1500, 25000)
        if len(h) > lim:
            h = rng.sample(h, lim)
        hs += [(dim, nv, x) for x in h]
    jobs = []
    for dim, nv, h in hs:
        # vertices of cells in any order, vertices renamed, some unused ones
        extra = rng.choice((0, 0, 1))
        names = list(range(nv + extra))
        rng.shuffle(names)
        cells = []
        for cell in h:
            cell = [names[v - 1] for v in cell]
            rng.shuffle(cell)
            cells.append(cell)
        rng.shuffle(cells)
        jobs.append((dim, nv + extra, cells, rng.choice(("int64", "int32"))))
    for k in range(c.scale(40, 200)):
        dim = rng.choice((2, 2, 3))
        n = rng.randint(3, 7) if dim == 2 else rng.randint(2, 3)
        holes = [tuple(rng.randint(1, max(1, n - 2)) for _ in range(dim)) for _ in range(rng.randint(0, 3))]
        nv, cells = big(rng, dim, n, holes, rng.choice((1, 2)) if n > 2 else 1)
        if cells:
            jobs.append((dim, nv, cells, "int64"))
    cases, keys = [], []
    for j, r in zip(jobs, core.pmap(run, jobs, timeout=60)):
        key = "dim%d:%s" % (j[0], str(j[2])[:120])
        v = c.outcome(r, key, {"dim": j[0], "vertices": j[1], "cells": j[2]})
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.cases("Topology", cases, keys, timeout=850)


core.main("C18", body)
