"""What every check shares: build, isolated execution of the code under test, TLC, verdicts, evidence."""
import itertools
import json
import os
import pickle
import re
import select
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# --------------------------------------------------------------------------- isolated execution
def _wr(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    v = memoryview(struct.pack("<q", len(b)) + b)
    while v:
        n = os.write(fd, v)
        v = v[n:]


class _Kid:
    def __init__(self, fn, items, quiet):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.setsid()
                os.close(r)
                if quiet:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                for k, it in items:
                    _wr(w, ("start", k))
                    try:
                        v = ("ok", fn(it))
                    except BaseException as e:  # noqa
                        v = ("raise", "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:])
                    _wr(w, ("end", k, v))
            finally:
                os._exit(0)
        os.close(w)
        self.fd, self.items, self.buf = r, items, b""
        self.cur, self.t0 = None, time.time()
        self.done = set()

    def kill(self):
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass

    def reap(self):
        os.close(self.fd)
        try:
            _, st = os.waitpid(self.pid, 0)
        except OSError:
            st = 0
        return st


def pmap(fn, items, procs=8, timeout=120.0, quiet=True, chunk=None):
    """fn on every item in forked children (of which each gives up after the timeout, and all of them after 16 hangs).  Result per item: ("ok", v) | ("raise", text, tb) |
    ("died", text) | ("hang", text).  A crash or hang of one item costs only that item."""
    items = list(enumerate(items))
    res = [None] * len(items)
    if not items:
        return res
    if chunk is None:
        chunk = max(1, min(200, (len(items) + procs * 4 - 1) // (procs * 4)))
    queue = [items[a:a + chunk] for a in range(0, len(items), chunk)]
    queue.reverse()
    kids, hangs = [], 0
    try:
        while queue or kids:
            if hangs >= 16:                      # enough evidence, the rest would take hours
                for k in kids:
                    queue.append([it for it in k.items if it[0] not in k.done])
                for n, _ in itertools.chain(*queue):
                    res[n] = ("hang", "not run after 16 others gave no result")
                return res
            while queue and len(kids) < procs:
                kids.append(_Kid(fn, queue.pop(), quiet))
            rd, _, _ = select.select([k.fd for k in kids], [], [], 0.5)
            now = time.time()
            for k in list(kids):
                if k.fd in rd:
                    b = os.read(k.fd, 1 << 20)
                    if b:
                        k.buf += b
                        while len(k.buf) >= 8:
                            (n,) = struct.unpack("<q", k.buf[:8])
                            if len(k.buf) < 8 + n:
                                break
                            m = pickle.loads(k.buf[8:8 + n])
                            k.buf = k.buf[8 + n:]
                            if m[0] == "start":
                                k.cur, k.t0 = m[1], now
                            else:
                                res[m[1]] = m[2]
                                k.done.add(m[1])
                                k.cur = None
                    else:
                        kids.remove(k)
                        st = k.reap()
                        left = [it for it in k.items if it[0] not in k.done]
                        if k.cur is not None:
                            what = "signal %d" % os.WTERMSIG(st) if os.WIFSIGNALED(st) else "exit %d" % (st >> 8)
                            res[k.cur] = ("died", what)
                            left = [it for it in left if it[0] != k.cur]
                        elif left and not k.done:
                            raise RuntimeError("worker failed to start")
                        if left:
                            queue.append(left)
                elif k.cur is not None and now - k.t0 > (timeout if hangs < 4 else min(timeout, 20.0)):
                    hangs += 1
                    k.kill()
                    kids.remove(k)
                    k.reap()
                    res[k.cur] = ("hang", "no result after %gs" % timeout)
                    left = [it for it in k.items if it[0] not in k.done and it[0] != k.cur]
                    if left:
                        queue.append(left)
    finally:
        for k in kids:
            k.kill()
            k.reap()
    return res


# --------------------------------------------------------------------------- TLC
class TLCError(Exception):
    pass


_VER = re.compile(r'<<\s*"V",\s*(\d+),\s*"([^"]*)"\s*>>')    # TLC breaks long lines


class TLCResult:
    states = distinct = 0
    verdicts = None
    out = ""
    violated = None


def tlc(module, cfg=None, cases=None, env=None, workers="auto", timeout=600, args=(), consts=None,
        expect=0, tmp=None):
    """Run TLC on spec/<module>.tla.  `cases` is dumped as JSON and named by $CASES.  `consts` is put in
    a generated cfg in front of the committed one."""
    d = tempfile.mkdtemp(prefix="vf_tlc_", dir=tmp or tempfile.gettempdir())
    try:
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if cases is not None:
            p = os.path.join(d, "cases.json")
            with open(p, "w") as f:
                json.dump(cases, f)
            e["CASES"] = p
        e.update(env or {})
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        if consts:
            g = os.path.join(d, "gen.cfg")
            with open(g, "w") as f:
                f.write(open(cfgp).read() + "\nCONSTANTS\n" + "\n".join(consts) + "\n")
            cfgp = g
        cmd = ["tlc", "-config", cfgp, "-metadir", os.path.join(d, "m"), "-noGenerateSpecTE",
               "-workers", str(workers), *args, os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC on %s did not finish in %ds" % (module, timeout))
        out = r.stdout.decode(errors="replace")
        res = TLCResult()
        res.out, res.rc, res.wall = out, r.returncode, time.time() - t0
        res.verdicts = []
        for m in _VER.finditer(out):
            res.verdicts.append((int(m.group(1)), " ".join(m.group(2).split())))
        if out.count('"V",') != len(res.verdicts):
            raise TLCError("TLC on %s: a verdict cannot be read\n%s" % (module, out[-2000:]))
        if os.environ.get("VF_VERBOSE"):
            log("tlc %s %.1fs cases=%s" % (module, res.wall, len(cases) if cases is not None else "-"))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res.states, res.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"Invariant (\w+) is violated|Temporal properties were violated|Deadlock reached|"
                      r"The postcondition .* is false|property (\w+) is violated", out)
        if m:
            res.violated = m.group(0)
        if expect is not None and r.returncode != expect:
            brief = [l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic proc"))]
            err = TLCError("TLC on %s: exit %d\n%s" % (module, r.returncode, "\n".join([l for l in brief if "rror" in l or "overflow" in l.lower() or "java" in l][:12] + ["..."] + brief[-20:])[-4000:]))
            err.out = out
            raise err
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def tlc_cases(module, cases, **kw):
    """Case specification: Verdict(case) for every case; returns [(index, clause)] of the cases that do not
    satisfy the specification.  Raises when TLC did not evaluate every case."""
    if not cases:
        raise TLCError("no cases for " + module)
    bad, left = [], list(range(len(cases)))
    while True:
        try:
            r = tlc(module, cases=[cases[k] for k in left], **kw)
            break
        except TLCError as e:
            # a record that the specification cannot even be evaluated for (a number too large, an index that doesn't exist)
            m = re.search(r"behavior up to this point is:.*?/\\ i = (\d+)", str(getattr(e, "out", "")), re.S)
            if not m or len(bad) >= 4 or len(left) < 2:
                e.bad = bad
                raise
            k = int(m.group(1)) - 1
            bad.append((left.pop(k), "the record is not of the form that the specification requires"))
    if r.distinct != 2 * len(left):
        raise TLCError("TLC on %s evaluated %d states for %d cases\n%s" % (module, r.distinct, len(left), r.out[-2000:]))
    r.bad = [(left[i - 1], c) for i, c in r.verdicts] + bad
    return r


# --------------------------------------------------------------------------- the check
class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.viol = []
        self.assumptions = []
        self.tops = []
        try:
            with open(os.path.join(VERIF, "known_findings.json")) as f:
                self.known = [k for k in json.load(f)["known"] if k["property"] == pid]
        except FileNotFoundError:
            self.known = []
        self.known_hit = {}

    thorough = property(lambda s: s.tier == "thorough")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def build(self, pre=None):
        sys.path.insert(0, os.path.join(VERIF, "lib"))
        import build as b
        top, src, rebuilt = b.build()
        self.tops.append(top)
        self.src = src
        os.environ.update({k: v for k, v in b.runtime_env(src).items()})
        sys.path.insert(0, src)
        import mpi4py
        mpi4py.rc.initialize = False
        mpi4py.rc.finalize = False
        if rebuilt:
            log("rebuilt", rebuilt)
        if pre:
            pre()
        import SeismicMesh
        if not os.path.realpath(SeismicMesh.__file__).startswith(os.path.realpath(src)):
            raise RuntimeError("imported " + SeismicMesh.__file__)
        return src

    def tmp(self):
        d = tempfile.mkdtemp(prefix="vf_work_")
        self.tops.append(d)
        return d

    def add(self, r):
        self.states += r.distinct
        self.transitions += r.states
        return r

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, key, what, replay):
        """key identifies the failing input or history (matched against the known findings)."""
        for k in self.known:
            if re.fullmatch(k["match"], key):
                self.known_hit.setdefault(k["id"], (k, key, what))
                return
        self.viol.append((key, what, replay))

    def cases(self, module, cases, keys=None, traces=True, **kw):
        """Judge the recorded cases by the specification; every case that fails is a violation."""
        r = self.add(tlc_cases(module, cases, **kw))
        if traces:
            self.traces += len(cases)
        for i, clause in r.bad:
            key = "%s:%s" % (keys[i] if keys else "case%d" % i, clause)
            self.violation(key, "%s: %s" % (module, clause), {"spec": module, "clause": clause, "case": cases[i]})
        for c in cases[:: max(1, len(cases) // 3)]:
            s = json.dumps(c)
            self.sample(json.loads(s) if len(s) < 3000 else s[:3000])
        return r

    def outcome(self, res, key, replay):
        """The value of an isolated run, or None after recording its failure as a violation."""
        if res[0] == "ok":
            return res[1]
        self.violation("%s:%s" % (key, res[0]), "%s: %s" % (key, " ".join(str(x) for x in res[:2])),
                       {"input": replay, "outcome": list(res)})
        return None

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["-"]}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=_js)
        for fid, (k, key, what) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.pid, k["what"], key), flush=True)
        if self.viol:
            os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
            for n, (key, what, rep) in enumerate(self.viol[:20]):
                p = os.path.join(VERIF, "replay", "%s-%d.json" % (self.pid, n))
                with open(p, "w") as f:
                    json.dump({"property": self.pid, "key": key, "what": what, "replay": rep}, f, indent=1, default=_js)
                print("VIOLATION property=%s replay=%s %s [%s]" % (self.pid, p, what.replace("\n", " ")[:300], key[:200]),
                      flush=True)
            if len(self.viol) > 20:
                print("... and %d more" % (len(self.viol) - 20))
            return 1
        if self.traces < 50:
            print("ERROR property=%s only %d cases judged" % (self.pid, self.traces), flush=True)
            return 2
        print("OK property=%s tier=%s states=%d traces=%d wall=%.1fs" % (
            self.pid, self.tier, self.states, self.traces, time.time() - self.t0), flush=True)
        return 0


def _js(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except ImportError:
        pass
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def main(pid, body, level="model_checking", pre=None):
    """body(check) does the work; a failure of the machinery itself ends with exit 2."""
    c = Check(pid, level)
    rc = 2
    try:
        c.build(pre)
        body(c)
        rc = c.finish()
    except BaseException as e:  # noqa
        traceback.print_exc()
        print("ERROR property=%s %s" % (pid, type(e).__name__), flush=True)
        rc = 2
        if c.viol and isinstance(e, Exception):          # what has been found before counts
            rc = c.finish()
    finally:
        for t in c.tops:
            shutil.rmtree(t, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
