"""C17: reading and writing velocity models (Model.tla)."""
import itertools
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import core
import models


def body(c):
    rng = random.Random(c.seed * 13 + 17)
    cases, keys = [], []

    def go(fn, jobs, tag):
        for j, r in zip(jobs, core.pmap(fn, jobs, procs=6, timeout=60)):
            key = tag + str(j)[:150]
            v = c.outcome(r, key, j)
            if v is not None:
                cases.extend(v)
                keys.extend([key] * len(v))
        c.extra[tag] = len(jobs)
    jobs = []
    sizes = [(2, 3, 4), (4, 2, 3), (1, 3, 2), (3, 1, 4), (3, 4, 1), (2, 2, 2)] + ([(5, 7, 6), (6, 4, 9), (1, 1, 5)] if c.thorough else [])
    for n in sizes:
        for order in itertools.permutations(range(3)):
            for sort in "FC":
                for byte in ("big", "little"):
                    for dt in ("float32", "float64"):
                        jobs.append(models.bin_job(rng, list(n), list(order), sort, byte, dt))
    for k in range(c.scale(60, 600)):
        jobs.append(models.bin_job(rng, [rng.randint(1, 7) for _ in range(3)], rng.sample(range(3), 3), rng.choice("FC"),
                                   rng.choice(("big", "little")), rng.choice(("float32", "float64", "int16", "int32"))))
    go(models.run_bin, jobs, "bin ")
    jobs = []
    for nt in range(1, 6):
        for ns in range(1, 6):
            v = [rng.randint(100, 9000) for _ in range(nt * ns)]
            jobs.append(([v[k * ns:k * ns + ns] for k in range(nt)], rng.choice((1, 5))))
    for k in range(c.scale(40, 300)):
        nt, ns = rng.randint(1, 40), rng.randint(1, 40)
        jobs.append(([[rng.randint(100, 9000) for _ in range(ns)] for _ in range(nt)], rng.choice((1, 5))))
    go(models.run_segy, jobs, "segy ")
    go(models.run_hdf5, [models.hdf5_job(rng, False) for _ in range(c.scale(150, 1200))], "hdf5 ")
    go(models.refuse, [(d, b) for d in itertools.product((True, False), repeat=3) for b in ("big", "little", None, "Big", "native", "")], "refuse ")
    c.cases("Model", cases, keys, timeout=850)


core.main("C17", body)
