"""C01: every rank ends, under every schedule of the messages.

The communication programs of the ranks are recorded from real runs of generate_mesh and executed by
MPI.tla in every interleaving with every choice of buffering; the real code itself is run under several
schedules and send semantics."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import par


def programs(w):
    """Recorded operations as operations of MPI.tla."""
    out = []
    for ops in w["ops"]:
        rid, prog = 0, []
        for kind, peer, tag, n in ops:
            if kind in ("isend", "irecv"):
                rid += 1
                prog.append([kind, peer, tag, rid])
            elif kind == "wait":
                prog.append([kind, 0, 0, tag])
            else:
                prog.append([kind, peer, tag, 0])
        out.append(prog)
    return out


def scenarios(c, rng):
    out = []
    n = c.scale(8, 60)
    for dim in (2, 3):
        for ranks in (2, 3, 4, 5) if dim == 2 else (2, 3):
            for _ in range(n):
                sc = par.scenario(rng, ranks, dim, domain=rng.choice(["box", "box", "ell", "ell", "hole", "hole", "ball", "inner"]),
                                  size=rng.choice(["const", "call", "grid"]), points=rng.random() < 0.4)
                sc["expect"] = "ok" if sc["domain"] in ("box", "ell", "hole") else "any"
                out.append(sc)
    # starts and runs that fail on some ranks, or may
    for ranks in (2, 3, 4):
        for pts in (False, True):
            out.append(par.scenario(rng, ranks, rng.choice([2, 3]), domain="corner", size=rng.choice(["const", "call"]),
                                    points=pts, expect="any"))
        out.append(par.scenario(rng, ranks, 2, points=True, few=ranks + 1, expect="raise"))
        out.append(par.scenario(rng, ranks, 2, points=True, opts={"axis": 2}, expect="raise"))
        out.append(par.scenario(rng, ranks, 2, opts={"max_iter": 0}, expect="raise"))
        out.append(par.scenario(rng, ranks, 2, opts={"unknown": 0}, expect="raise"))
        out.append(par.scenario(rng, ranks, 2, iters=4, opts={"delta_t": 1e5}, domain=rng.choice(["box", "ell"]), expect="any"))
        # blocks narrower than the overlap
        sc = par.scenario(rng, ranks, 2, domain="ell", expect="any")
        sc["L"][sc["axis"]] = float(3 * ranks)
        out.append(sc)
        # a lopsided start: the ranks do very different amounts of work
        sc = par.scenario(rng, ranks, 2, size="call", expect="any", iters=c.scale(3, 5))
        out.append(sc)
    return out


def body(c):
    rng = random.Random(c.seed * 7 + 1)
    scs = scenarios(c, rng)
    jobs = []
    for n, sc in enumerate(scs):
        for sem in ("buffered", "sync", "mixed"):
            for k in range(1 if sem != "mixed" else c.scale(2, 6)):
                jobs.append((sc, sem, c.seed * 100 + 17 * n + k, True))
    res = core.pmap(par.world, jobs, procs=6, timeout=130, chunk=4)
    cases, keys, seen = [], [], {}
    for (sc, sem, seed, _), r in zip(jobs, res):
        rep = {"scenario": sc, "semantics": sem, "seed": seed}
        key = "run-%d" % scs.index(sc)
        w = c.outcome(r, key, rep)
        if w is None:
            continue
        c.traces += 1
        ends = [("raise" if q["end"] == "raise" else q["end"]) for q in w["ranks"]]
        rep["ends"] = [[q["end"], str(q["value"])[:200] if q["end"] != "ok" else ""] for q in w["ranks"]]
        if w["mismatch"]:
            c.violation(key + ":collective", "ranks enter different collective operations: %s" % w["mismatch"], rep)
        prog = programs(w)
        case = {"n": sc["ranks"], "prog": prog, "buffered": True, "ends": ["stuck" if e in ("blocked", "hang") else e for e in ends],
                "expect": sc["expect"]}
        if "died" in ends:
            c.violation(key + ":died", "a rank died", rep)
        s = core.json.dumps(case)
        if s not in seen:
            # all buffering choices for the smaller programs, rendezvous only (the strictest) for the others
            case["buffered"] = sum(map(len, prog)) <= c.scale(130, 220)
            seen[s] = (len(cases), rep)
            cases.append(case)
            keys.append((key, rep))
    r = c.add(core.tlc("MPI", cases=cases, timeout=800))
    if r.distinct < 2 * len(cases):
        raise core.TLCError("not all programs were executed")
    for i, clause in r.verdicts:
        key, rep = keys[i - 1]
        c.violation(key + ":" + clause, "MPI: " + clause, {"run": rep, "program": cases[i - 1]})
    if c.thorough:
        small = [x for x in cases if sum(map(len, x["prog"])) <= 60][:10]
        c.add(core.tlc("MPI", cfg="MPILive.cfg", cases=small, timeout=600))
    c.extra["programs"] = len(cases)
    c.extra["operations"] = sum(len(p) for x in cases for p in x["prog"])
    for x in cases[:2]:
        c.sample(x)
    c.assumptions += ["collective operations synchronise all ranks (the strictest implementation MPI allows)",
                      "a rank's program of operations does not depend on the schedule; every recorded variant of it is explored"]


core.main("C01", body, pre=par.install)
