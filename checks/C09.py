"""C09: a generated mesh conforms to its domain (Conform.tla)."""
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import fakempi
import meshing


def scaled(t, n):
    if "of" in t:
        return {"kind": t["kind"], "of": [scaled(x, n) for x in t["of"]]}
    return {"kind": t["kind"], "a": [x * n for x in t["a"]]}


def extent(t):
    """the greatest absolute coordinate"""
    if "of" in t:
        return max(extent(x) for x in t["of"])
    a = t["a"]
    return {"box": lambda: max(map(abs, a)), "ball": lambda: max(map(abs, a[:-1])) + a[-1], "torus": lambda: a[0] + a[1],
            "cylinder": lambda: max(a), "prism": lambda: 2 * max(a)}[t["kind"]]()


def neighbours(t):
    at = {}
    for k, c in enumerate(t):
        for n in range(len(c)):
            at.setdefault(tuple(sorted(c[:n] + c[n + 1:])), []).append((k, n))
    N = [[0] * len(c) for c in t]
    for f in at.values():
        for (k, n), (m, _) in zip(f, f[1:] + f[:1]):
            if len(f) > 1:
                N[k][n] = m + 1
    return N


def run(sc):
    import numpy as np
    if sc["ranks"] == 1:
        p, t = meshing.generate(sc)
    else:
        w = fakempi.run_world(sc["ranks"], lambda comm: meshing.generate(sc, comm, axis=sc["axis"]), "buffered", sc["seed"], timeout=200)
        if any(w.outcome[k][0] != "ok" for k in w.outcome):
            raise AssertionError("ranks: %s" % str(w.outcome)[:300])
        p, t = w.outcome[0][1]
    p, t = np.asarray(p), np.asarray(t)
    dim, u = sc["dim"], sc["u"] * sc["scale"]
    E = extent(meshing.padded_box(sc))
    S = 9000 // E if dim == 2 else 6000 // E
    S -= S % 100
    z = 1 if dim == 2 else S // (180 // E)
    w = S if dim == 2 else 180 // E
    r = np.random.RandomState(sc["seed"])
    sbox = [b * S for b in sc["sbox"]] if sc.get("sbox") and not sc["callable"] else []
    c = {"dim": dim, "sbox": sbox, "tree": scaled(sc["tree"], S), "h": int(round(S * sc["h0"] / sc["u"])), "Q": np.rint(p / u * S).astype(int).tolist(),
         "T": t.tolist(), "N": neighbours(t.tolist()), "z": z, "R": np.floor(p / u * S / z).astype(int).tolist(),
         "probes": r.randint(-E * S, E * S + 1, (60 if dim == 2 else 30, dim)).tolist(), "sub": [scaled(s, S) for s in sc.get("sub", [])],
         "W": np.rint(p / u * w).astype(int).tolist() if sc["tree"]["kind"] == "box" else [], "S": S, "w": w, "miss": miss(sc)}
    return c


def miss(sc):
    """the part of a box that the cells may leave out, per mille; -1: not judged.  Without corners that are kept, and where the size
    varies, cells at edges of the box may still be too flat to be kept"""
    if sc["opts"].get("geps_mult", .1) > .1:
        return -1
    kept = sc["ranks"] == 1 and not sc["callable"] and (sc["dim"] == 2 or sc["size"] == "const")
    if sc["dim"] == 2:
        return 2 if kept else 6 if sc["size"] == "const" else 30
    if sc["callable"] or sc.get("sub"):
        return -1
    a = meshing.padded_box(sc).get("a", [0, 0])
    wide = min(a[2 * k + 1] - a[2 * k] for k in range(3)) * sc["u"] >= 5 if sc["tree"]["kind"] == "box" else False
    return 10 if sc["size"] == "const" and sc["iters"] >= 25 and wide and sc["opts"].get("delta_t", .3) in (.2, .3) else 45


def scenario(rng):
    sc = meshing.scenario(rng)
    sc["iters"] = rng.choice((10, 25, 25, 50))
    sc["ranks"] = 1
    sc["slope"] = rng.choice((0.5, 1.0, 2.0))
    if rng.random() < .2:
        sc["tree"] = {"kind": "box", "a": [-3, 3, -2, 2]} if sc["dim"] == 2 else {"kind": "box", "a": [-2, 2, -2, 2, -2, 2]}
        sc["sub"] = [{"kind": "ball", "a": [rng.randint(-1, 1), 0, 1] if sc["dim"] == 2 else [0, 0, 0, 1]}]
        sc["iters"] = rng.choice((25, 50))
        if sc["dim"] == 2 and rng.random() < .3:
            sc["ranks"], sc["axis"], sc["u"], sc["callable"] = 2, rng.choice((0, 1)), 6.0, False
    elif sc["dim"] == 2 and rng.random() < .15:
        sc["ranks"], sc["axis"] = 2, rng.choice((0, 1))
        sc["u"], sc["callable"] = 6.0, False
        if rng.random() < .4:
            meshing.pad(rng, sc)
    elif sc["dim"] == 3 and rng.random() < .3:
        sc["ranks"], sc["axis"], sc["callable"], sc["u"] = 2, rng.randrange(3), False, rng.choice((2.6, 2.7, 2.8, 2.9))
        sc["tree"] = {"kind": "box", "a": [x for k in range(3) for x in ((-3, 3) if k == sc["axis"] else (-1, 1))]}
        if rng.random() < .4:
            meshing.pad(rng, sc)
    elif rng.random() < .2:
        meshing.pad(rng, sc)
        sc["callable"] = sc["callable"] and rng.random() < .5
        if sc["dim"] == 3:
            sc["u"] = 2.0
    return sc


def body(c):
    rng = random.Random(c.seed * 71 + 9)
    scs = [scenario(rng) for _ in range(c.scale(300, 3000))]
    cases, keys = [], []
    for n, (sc, r) in enumerate(zip(scs, core.pmap(run, scs, timeout=300))):
        key = "%d:%s:u%s:%s:%d iterations:%d ranks:%s%s" % (n, sc["tree"], sc["u"], sc["size"], sc["iters"], sc["ranks"], sc["opts"],
                                                            ":sub" if sc.get("sub") else ":sizes in %s" % sc["sbox"] if sc.get("sbox") else ":slope %s" % sc["slope"] if sc["callable"] else "")
        v = c.outcome(r, key, sc)
        if v is not None:
            cases.append(v)
            keys.append(key)
    c.extra.update(meshes=len(cases), vertices=sum(len(x["Q"]) for x in cases), probes=sum(len(x["probes"]) for x in cases),
                   parallel=sum(s["ranks"] > 1 for s in scs), subdomains=sum(bool(s.get("sub")) for s in scs),
                   padded=sum(bool(s.get("sbox")) for s in scs))
    c.cases("Conform", cases, keys, timeout=850)
    c.assumptions += ["edge lengths between a half and an eighteenth of the parts of the domain"]


if __name__ == "__main__":
    core.main("C09", body)
