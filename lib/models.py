"""Velocity files written to a scratch directory, read and rewritten by the code, recorded for Model.tla."""
import itertools
import os
import tempfile

import fakempi


def ints(a, k=1):
    import numpy as np
    out = []
    for x in np.asarray(a).ravel():
        x = float(x) * k
        out.append(int(round(x)) if x == x and abs(x) < 2e9 and abs(x - round(x)) < 1e-3 * (1 + (k > 1) * 500) else -1)
    return out


def write_bin(path, vals, dtype, order):
    import numpy as np
    import struct
    f = {"float32": "f", "float64": "d", "int16": "h", "int32": "i"}[dtype]
    with open(path, "wb") as h:
        h.write(struct.pack((">" if order == "big" else "<") + f * len(vals), *vals))


def write_segy(path, traces, fmt):
    import segyio
    spec = segyio.spec()
    spec.format = fmt
    spec.samples = list(range(len(traces[0])))
    spec.tracecount = len(traces)
    with segyio.create(path, spec) as f:
        import numpy as np
        for k, t in enumerate(traces):
            f.header[k] = {segyio.TraceField.TRACE_SEQUENCE_LINE: k + 1}
            f.trace[k] = np.array(t, dtype=np.float32)


def run_bin(job):
    import numpy as np
    from SeismicMesh import read_velocity_model, write_velocity_model
    n, order, sort, byte, dtype, vals, name, tuples = job
    d = tempfile.mkdtemp(prefix="vf_bin_")
    try:
        p = os.path.join(d, name)
        write_bin(p, vals, dtype, byte)
        kw = dict(nz=n[0], nx=n[1], ny=n[2], byte_order=byte, axes_order=tuple(order) if tuples else list(order),
                  axes_order_sort=sort, dtype=dtype)
        v, a, b, e = read_velocity_model(p, **kw)
        if [a, b, e] != list(n):
            raise AssertionError("dimensions returned: %s" % [a, b, e])
        before = open(p, "rb").read()
        out = [{"kind": "bin", "n": list(n), "order": list(order), "sort": sort, "file": list(vals), "shape": list(v.shape), "got": ints(v)}]
        if open(p, "rb").read() != before:
            raise AssertionError("the file was modified")
        return out
    finally:
        rm(d)


def rm(d):
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    os.rmdir(d)


def run_segy(job):
    from SeismicMesh import read_velocity_model
    traces, fmt = job
    d = tempfile.mkdtemp(prefix="vf_segy_")
    try:
        p = os.path.join(d, "m.segy")
        write_segy(p, traces, fmt)
        v, nz, nx, ny = read_velocity_model(p)
        if [nz, nx, ny] != [len(traces[0]), len(traces), 0]:
            raise AssertionError("dimensions returned: %s" % [nz, nx, ny])
        return [{"kind": "segy", "traces": traces, "shape": list(v.shape), "got": ints(v)}]
    finally:
        rm(d)


def run_hdf5(job):
    """job: source ("bin", ...) or ("segy", ...); pad in units, spacing, style, ofname given"""
    import h5py
    import numpy as np
    from SeismicMesh import read_velocity_model, write_velocity_model
    src, pad, sp, style, oname, ranks = job
    d = tempfile.mkdtemp(prefix="vf_h5_")
    try:
        kw = {}
        if src[0] == "bin":
            _, n, order, sort, byte, dtype, vals = src
            p = os.path.join(d, "m.bin")
            write_bin(p, vals, dtype, byte)
            kw = dict(nz=n[0], nx=n[1], ny=n[2], byte_order=byte, axes_order=tuple(order), axes_order_sort=sort, dtype=dtype)
        else:
            p = os.path.join(d, "m.segy")
            write_segy(p, src[1], 5)
        v, nz, nx, ny = read_velocity_model(p, **kw)
        shape = list(v.shape)
        k2 = dict(kw)
        pn = [0] * len(shape)
        if pad:
            box = []
            for n, s in zip(shape, sp):
                box += [-float(n * s), 0.0]
            k2.update(domain_pad=float(pad), bbox=tuple(box))
            if style:
                k2["pad_style"] = style
            pn = [pad // s for s in sp[:len(shape)]]

        def target(comm):
            write_velocity_model(p, ofname=os.path.join(d, "out") if oname else None, comm=comm, **k2)
            return comm.rank
        if ranks == 1:
            target(fakempi.serial())
        else:
            w = fakempi.run_world(ranks, target, "mixed", 1, timeout=40)
            if not w.ok:
                raise AssertionError(w.describe())
        o = os.path.join(d, "out" if oname else os.path.basename(p)) + ".hdf5"
        with h5py.File(o, "r") as f:
            ds = f["velocity_model"]
            x = ds[...]
            return [{"kind": "hdf5", "src": ints(v, 1000), "shape": shape, "pn": pn, "style": style or "edge", "dshape": list(x.shape),
                     "data": ints(x, 1000), "attr": [int(q) for q in f.attrs["shape"]],
                     "units": f.attrs["units"] if isinstance(f.attrs["units"], str) else str(f.attrs["units"])}]
    finally:
        rm(d)


def refuse(job):
    from SeismicMesh import read_velocity_model
    dims, byte = job
    d = tempfile.mkdtemp(prefix="vf_ref_")
    try:
        p = os.path.join(d, "m.bin")
        write_bin(p, list(range(24)), "float32", "little")
        kw = {k: v for k, v, g in zip(("nz", "nx", "ny"), (2, 3, 4), dims) if g}
        if byte is not None:
            kw["byte_order"] = byte
        try:
            read_velocity_model(p, axes_order=(0, 1, 2), axes_order_sort="F", dtype="float32", **kw)
            r = "no"
        except Exception as e:
            r = type(e).__name__
        return [{"kind": "refuse", "dims": all(dims), "bytes": byte in ("big", "little"), "refused": r}]
    finally:
        rm(d)


def bin_job(rng, n, order, sort, byte, dtype):
    m = n[0] * n[1] * n[2]
    vals = [1000 + k for k in range(m)]
    rng.shuffle(vals)
    return (n, order, sort, byte, dtype, vals, rng.choice(("m.bin", "model", "x.segy.bin", "v.vp")), rng.random() < .5)


def hdf5_job(rng, pad):
    if rng.random() < .5:
        n = [rng.randint(1, 4) for _ in range(3)]
        b = bin_job(rng, n, rng.sample(range(3), 3), rng.choice("FC"), rng.choice(("big", "little")), rng.choice(("float32", "float64")))
        src = ("bin",) + b[:5] + ([x + .25 * rng.randint(0, 3) for x in b[5]],)
    else:
        nt, ns = rng.randint(1, 6), rng.randint(1, 6)
        src = ("segy", [[1000 + rng.randint(0, 4000) for _ in range(ns)] for _ in range(nt)])
    sp = [rng.randint(1, 5) for _ in range(3)]
    return (src, rng.randint(1, 9) if pad else 0, sp, rng.choice((None, "edge", "constant", "linear_ramp")), rng.random() < .7,
            rng.choice((1, 1, 1, 2)))
