"""A communicator whose message passing is decided by a scheduler in this process.

Every rank runs in a forked child (own numpy random state, own memory).  A rank that
calls the communicator sends a request to the scheduler and waits.  The scheduler
lets every live rank run up to its next request, and then picks one enabled request
with its own random generator: one run is one interleaving, and it is reproducible
from (seed, semantics).  Send semantics:
  buffered    a send always completes
  sync        a send completes only when the matching receive is posted (rendezvous)
  mixed       every single send is one or the other, chosen at random
A state where no request is enabled and some rank is not finished is a deadlock.
"""
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

import numpy as np

ANY = -1
LOG = None  # a list: what this rank sends, receives and triangulates, in program order (see par.py)


def note(*e):
    if LOG is not None:
        LOG.append(e)


def _w(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<q", len(b)) + b
    v = memoryview(b)
    while v:
        n = os.write(fd, v)
        v = v[n:]


def _rn(fd, n):
    out = bytearray()
    while len(out) < n:
        c = os.read(fd, min(1 << 20, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return bytes(out)


def _r(fd):
    (n,) = struct.unpack("<q", _rn(fd, 8))
    return pickle.loads(_rn(fd, n))


def _opname(op):
    """Reduction by identity of the MPI operation, done on python objects."""
    from mpi4py import MPI
    if op is None:
        return "sum"
    for name in ("SUM", "MIN", "MAX", "PROD", "LOR", "LAND", "BOR", "BAND"):
        if op == getattr(MPI, name):
            return name.lower()
    raise NotImplementedError("reduction op")


_FOLD = {
    "sum": lambda a, b: a + b, "prod": lambda a, b: a * b,
    "min": lambda a, b: np.minimum(a, b) if isinstance(a, np.ndarray) else min(a, b),
    "max": lambda a, b: np.maximum(a, b) if isinstance(a, np.ndarray) else max(a, b),
    "lor": lambda a, b: np.logical_or(a, b), "land": lambda a, b: np.logical_and(a, b),
    "bor": lambda a, b: a | b, "band": lambda a, b: a & b,
}


def _fold(op, vals):
    f = _FOLD[op]
    acc = vals[0]
    for v in vals[1:]:
        acc = f(acc, v)
    return acc


def _buf(b):
    if isinstance(b, (list, tuple)):
        b = b[0]
    return b


class Req:
    def __init__(self, comm, rid, kind):
        self.comm, self.rid, self.kind = comm, rid, kind
        self.done = False
        self.val = None

    def wait(self, status=None):
        if not self.done:
            self.val = self.comm._call("wait", self.rid)
            self.done = True
            if self.kind == "irecv":
                note("recv", None, self.val)
            self._fill()
        return self.val

    Wait = wait

    def _fill(self):
        if getattr(self, "buf", None) is not None and self.val is not None:
            b = self.buf
            np.asarray(b).reshape(-1)[: np.size(self.val)] = np.asarray(self.val).reshape(-1)

    def test(self, status=None):
        if not self.done:
            ok, v = self.comm._call("test", self.rid)
            if ok:
                self.done, self.val = True, v
                self._fill()
        return (self.done, self.val)

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


class Comm:
    """What mpi4py's Intracomm offers that a program of this kind can use."""

    def __init__(self, rank, size, rfd=None, wfd=None):
        self._rank, self._size, self._rfd, self._wfd = rank, size, rfd, wfd
        self._nreq = 0

    def __bool__(self):
        return True

    rank = property(lambda s: s._rank)
    size = property(lambda s: s._size)

    def Get_rank(self):
        return self._rank

    def Get_size(self):
        return self._size

    def _call(self, op, *args):
        if self._rfd is None:
            raise RuntimeError("point-to-point on a serial communicator")
        _w(self._wfd, ("op", op, args))
        return _r(self._rfd)

    # ---- point to point
    def send(self, obj, dest, tag=0):
        note("send", int(dest), obj)
        self._call("send", dest, tag, obj)

    ssend = bsend = send

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        v = self._call("recv", source, tag)
        note("recv", None if source is None else int(source), v)
        return v

    def isend(self, obj, dest, tag=0):
        self._nreq += 1
        rid = self._nreq
        note("send", int(dest), obj)
        self._call("isend", rid, dest, tag, obj)
        return Req(self, rid, "isend")

    issend = isend

    def irecv(self, buf=None, source=ANY, tag=ANY):
        self._nreq += 1
        rid = self._nreq
        self._call("irecv", rid, source, tag)
        return Req(self, rid, "irecv")

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        r = self.isend(sendobj, dest, sendtag)
        v = self.recv(source=source, tag=recvtag)
        r.wait()
        return v

    def Send(self, buf, dest, tag=0):
        self.send(np.array(_buf(buf)), dest, tag)

    Ssend = Send

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        v = self.recv(source=source, tag=tag)
        b = _buf(buf)
        b.reshape(-1)[: v.size] = np.asarray(v).reshape(-1)

    def Isend(self, buf, dest, tag=0):
        return self.isend(np.array(_buf(buf)), dest, tag)

    def Irecv(self, buf, source=ANY, tag=ANY):
        r = self.irecv(source=source, tag=tag)
        r.buf = _buf(buf)
        return r

    def Sendrecv(self, sendbuf, dest, sendtag=0, recvbuf=None, source=ANY, recvtag=ANY, status=None):
        v = self.sendrecv(np.array(_buf(sendbuf)), dest, sendtag, None, source, recvtag)
        b = _buf(recvbuf)
        b.reshape(-1)[: v.size] = np.asarray(v).reshape(-1)

    def probe(self, source=ANY, tag=ANY, status=None):
        return self._call("probe", source, tag)

    def iprobe(self, source=ANY, tag=ANY, status=None):
        return self._call("iprobe", source, tag)

    # ---- collectives
    def _coll(self, kind, val, root=None):
        if self._rfd is None:
            return [val]
        note("coll", kind, root)
        return self._call("coll", kind, root, val)

    def barrier(self):
        self._coll("barrier", None)

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return self._coll("bcast", obj if self._rank == root else None, root)[root]

    def gather(self, sendobj, root=0):
        v = self._coll("gather", sendobj, root)
        return v if self._rank == root else None

    def allgather(self, sendobj):
        return self._coll("allgather", sendobj)

    def alltoall(self, sendobj):
        return [v[self._rank] for v in self._coll("alltoall", sendobj)]

    def scatter(self, sendobj=None, root=0):
        return self._coll("scatter", sendobj if self._rank == root else None, root)[root][self._rank]

    def reduce(self, sendobj, op=None, root=0):
        v = self._coll("reduce", sendobj, root)
        return _fold(_opname(op), v) if self._rank == root else None

    def allreduce(self, sendobj, op=None):
        return _fold(_opname(op), self._coll("allreduce", sendobj))

    def scan(self, sendobj, op=None):
        return _fold(_opname(op), self._coll("scan", sendobj)[: self._rank + 1])

    def exscan(self, sendobj, op=None):
        v = self._coll("exscan", sendobj)[: self._rank]
        return _fold(_opname(op), v) if v else None

    def Bcast(self, buf, root=0):
        b = _buf(buf)
        v = self.bcast(np.array(b), root)
        if self._rank != root:
            b[...] = np.asarray(v).reshape(b.shape)

    def Reduce(self, sendbuf, recvbuf=None, op=None, root=0):
        v = self.reduce(np.array(_buf(sendbuf)), op, root)
        if self._rank == root:
            b = _buf(recvbuf)
            b[...] = np.asarray(v).reshape(b.shape)

    def Allreduce(self, sendbuf, recvbuf=None, op=None):
        v = self.allreduce(np.array(_buf(sendbuf)), op)
        b = _buf(recvbuf)
        b[...] = np.asarray(v).reshape(b.shape)

    def Gather(self, sendbuf, recvbuf=None, root=0):
        v = self.gather(np.array(_buf(sendbuf)), root)
        if self._rank == root:
            b = _buf(recvbuf)
            b.reshape(-1)[:] = np.concatenate([np.asarray(x).reshape(-1) for x in v])

    Gatherv = Gather

    def Allgather(self, sendbuf, recvbuf=None):
        v = self.allgather(np.array(_buf(sendbuf)))
        b = _buf(recvbuf)
        b.reshape(-1)[:] = np.concatenate([np.asarray(x).reshape(-1) for x in v])

    Allgatherv = Allgather

    def Scatter(self, sendbuf, recvbuf=None, root=0):
        s = None
        if self._rank == root:
            s = np.split(np.array(_buf(sendbuf)).reshape(-1), self._size)
        v = self.scatter(s, root)
        b = _buf(recvbuf)
        b.reshape(-1)[:] = np.asarray(v).reshape(-1)

    def Dup(self):
        return self

    Clone = Dup

    def Free(self):
        pass

    def Abort(self, code=1):
        raise RuntimeError("MPI Abort")


def serial():
    return Comm(0, 1)


class World:
    def __init__(self):
        self.outcome = {}      # rank -> ("ok", value) | ("raise", text) | ("died", status) | ("blocked", op) | ("hang", None)
        self.ops = {}          # rank -> list of op descriptions, in program order
        self.leftover = []     # messages sent and never received
        self.deadlock = False
        self.mismatch = None   # collective mismatch

    @property
    def ok(self):
        return all(o[0] == "ok" for o in self.outcome.values()) and not self.leftover

    def values(self):
        return [self.outcome[r][1] for r in sorted(self.outcome)]

    def describe(self):
        out = []
        for r in sorted(self.outcome):
            o = self.outcome[r]
            out.append("%d:%s%s" % (r, o[0], "" if o[0] == "ok" else "(" + str(o[1])[-160:] + ")"))
        if self.leftover:
            out.append("leftover=" + str(self.leftover))
        return " ".join(out)


def _size_of(obj):
    try:
        return int(len(obj))
    except TypeError:
        return 1


def run_world(size, target, semantics="buffered", seed=0, timeout=120.0, quiet=True):
    """target(comm) is run on every rank; returns a World."""
    rng = random.Random((seed * 1000003) ^ size)
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for r in range(size):
        c2p_r, c2p_w = os.pipe()
        p2c_r, p2c_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(c2p_r)
                os.close(p2c_w)
                for k in kids:
                    os.close(k[1])
                    os.close(k[2])
                if quiet:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                comm = Comm(r, size, p2c_r, c2p_w)
                try:
                    v = target(comm)
                    _w(c2p_w, ("done", v))
                except BaseException as e:  # noqa
                    tb = traceback.format_exc()
                    _w(c2p_w, ("raise", "%s: %s" % (type(e).__name__, e), tb[-1500:]))
            finally:
                os._exit(0)
        os.close(c2p_w)
        os.close(p2c_r)
        kids.append((pid, c2p_r, p2c_w))

    w = World()
    pend = [None] * size
    fin = [None] * size
    posted = []          # messages: dict(src,dst,tag,obj,n,seq,sync,rid)
    reqs = [dict() for _ in range(size)]
    for r in range(size):
        w.ops[r] = []
    seq = 0
    t_end = time.time() + timeout

    def reply(r, val):
        pend[r] = None
        try:
            _w(kids[r][2], val)
        except (BrokenPipeError, OSError):
            pass

    def match(r, source, tag):
        """Candidate messages for a receive: the first matching one of every source."""
        seen, out = set(), []
        for m in posted:
            if m["dst"] == r and (source in (ANY, None) or m["src"] == source) and (tag in (ANY, None) or m["tag"] == tag):
                if m["src"] not in seen:
                    seen.add(m["src"])
                    out.append(m)
        return out

    def complete_msg(m):
        posted.remove(m)
        if m["blocking"]:
            reply(m["src"], None)
        elif m.get("rid") is not None:
            reqs[m["src"]][m["rid"]]["matched"] = True

    try:
        while True:
            # let every rank that is neither waiting nor finished come to its next request
            while True:
                run = [r for r in range(size) if pend[r] is None and fin[r] is None]
                if not run:
                    break
                left = t_end - time.time()
                if left <= 0:
                    for r in run:
                        fin[r] = ("hang", None)
                    break
                rd, _, _ = select.select([kids[r][1] for r in run], [], [], left)
                for r in run:
                    if kids[r][1] in rd:
                        try:
                            msg = _r(kids[r][1])
                        except EOFError:
                            _, st = os.waitpid(kids[r][0], 0)
                            kids[r] = (None,) + kids[r][1:]
                            fin[r] = ("died", st)
                            continue
                        if msg[0] == "done":
                            fin[r] = ("ok", msg[1])
                        elif msg[0] == "raise":
                            fin[r] = ("raise", msg[1])
                            w.tb = msg[2]
                        else:
                            pend[r] = (msg[1], msg[2])
                            op, a = msg[1], msg[2]
                            # post sends at once: a posted message is what a receive can match
                            if op in ("send", "isend"):
                                if op == "send":
                                    dest, tag, obj = a
                                    rid = None
                                else:
                                    rid, dest, tag, obj = a
                                sync = semantics == "sync" or (semantics == "mixed" and rng.random() < 0.5)
                                w.ops[r].append([op, int(dest), int(tag), _size_of(obj)])
                                if not (0 <= dest < size):
                                    fin[r] = ("raise", "invalid destination rank %d" % dest)
                                    continue
                                seq += 1
                                m = dict(src=r, dst=int(dest), tag=int(tag), obj=obj, seq=seq, blocking=(op == "send" and sync), rid=rid)
                                posted.append(m)
                                if op == "isend":
                                    reqs[r][rid] = dict(kind="isend", matched=not sync)
                            elif op == "irecv":
                                rid, source, tag = a
                                w.ops[r].append([op, -1 if source is None else int(source), -1 if tag is None else int(tag), 0])
                                reqs[r][rid] = dict(kind="irecv", source=source, tag=tag, done=False, val=None)
                            elif op in ("recv", "probe"):
                                w.ops[r].append([op, -1 if a[0] is None else int(a[0]), -1 if a[1] is None else int(a[1]), 0])
                            elif op == "coll":
                                w.ops[r].append([a[0], -1 if a[1] is None else int(a[1]), 0, 0])
                            elif op == "wait":
                                w.ops[r].append(["wait", 0, int(a[0]), 0])
            # posted irecvs match first (in posting order)
            for r in range(size):
                for rid in sorted(reqs[r]):
                    q = reqs[r][rid]
                    if q["kind"] == "irecv" and not q["done"]:
                        c = match(r, q["source"], q["tag"])
                        if c:
                            m = rng.choice(c)
                            q["done"], q["val"] = True, m["obj"]
                            complete_msg(m)
            en = []
            for r in range(size):
                if pend[r] is None:
                    continue
                op, a = pend[r]
                if op == "send":
                    ms = [m for m in posted if m["src"] == r and m["blocking"]]
                    if not ms:
                        en.append((r, "ret", None))
                elif op in ("isend", "irecv"):
                    en.append((r, "ret", None))
                elif op == "recv":
                    for m in match(r, a[0], a[1]):
                        en.append((r, "recv", m))
                elif op == "probe":
                    if match(r, a[0], a[1]):
                        en.append((r, "ret", True))
                elif op == "iprobe":
                    en.append((r, "ret", bool(match(r, a[0], a[1]))))
                elif op in ("wait", "test"):
                    q = reqs[r][a[0]]
                    ok = q["matched"] if q["kind"] == "isend" else q["done"]
                    v = None if q["kind"] == "isend" else q["val"]
                    if op == "test":
                        en.append((r, "ret", (ok, v)))
                    elif ok:
                        en.append((r, "ret", v))
            live = [r for r in range(size) if fin[r] is None]
            if not live:
                break
            colls = [r for r in live if pend[r] is not None and pend[r][0] == "coll"]
            if len(colls) == size:
                ks = {(pend[r][1][0], pend[r][1][1]) for r in colls}
                if len(ks) > 1:
                    w.mismatch = sorted(map(str, ks))
                    break
                en.append((None, "coll", None))
            if not en:
                w.deadlock = True
                break
            r, what, m = rng.choice(en)
            if what == "coll":
                vals = [pend[q][1][2] for q in range(size)]
                kind, root = pend[0][1][0], pend[0][1][1]
                for q in range(size):
                    if kind in ("gather", "reduce") and q != root:
                        reply(q, [None] * size)
                    else:
                        reply(q, vals)
            elif what == "recv":
                obj = m["obj"]
                complete_msg(m)
                reply(r, obj)
            else:
                reply(r, m)
    finally:
        for r in range(size):
            if fin[r] is None:
                fin[r] = ("blocked", pend[r][0] + str([x for x in pend[r][1] if isinstance(x, (int, str, type(None)))]) if pend[r] else "?")
        for pid, a, b in kids:
            for fd in (a, b):
                try:
                    os.close(fd)
                except OSError:
                    pass
            if pid:
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.waitpid(pid, 0)
                except OSError:
                    pass
    for r in range(size):
        w.outcome[r] = fin[r]
    w.leftover = [[m["src"], m["dst"], m["tag"]] for m in posted]
    return w
