"""Trace recorder and Quint runner shared by all the checks.

A *driver* (checks/cXX.py) calls the public API of aerokit and records what it
observed as a list of events.  The events are written as `data.qnt` next to a
scratch copy of the specification, and `quint run` decides whether the recorded
behaviour is one the specification allows.  Numbers are passed exactly (floats
are dyadic rationals) as fixed-point integers scaled by 2^100.
"""
import contextlib
import io
import json
import math
import os
import pickle
import random
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time
import traceback
import warnings
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AEROKIT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
QUINT = shutil.which("quint") or "quint"

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

SHIFT = 100
OFF = 1 << 255
S_NAN, S_INF, S_EXC = 1 << 230, 1 << 231, 1 << 232
LIM = 1 << 215

# flag bits of a recorded call
MUTATED, SHAPE, REPEAT, RAISED, TYPE = 1, 2, 4, 8, 16


class Raised(Exception):
    """marker value: the call raised"""

    def __reduce__(self):
        return "EXC"


EXC = Raised("call raised")


def enc(x):
    """exact fixed-point encoding of a number (total)"""
    if x is EXC or isinstance(x, BaseException):
        return S_EXC
    if x is None:
        return S_NAN
    if isinstance(x, Raw):
        return x.v
    if isinstance(x, (bool, np.bool_)):
        return int(x) << SHIFT
    if isinstance(x, (int, np.integer)):
        v = int(x) << SHIFT
        return v if abs(v) < LIM else S_INF
    try:
        x = float(x)
    except Exception:
        return S_EXC
    if math.isnan(x):
        return S_NAN
    if math.isinf(x):
        return S_INF if x > 0 else -S_INF
    n, d = x.as_integer_ratio()
    v = (n << SHIFT) // d
    return v if abs(v) < LIM else (S_INF if v > 0 else -S_INF)


class Raw:
    """an integer passed as such (not scaled)"""

    def __init__(self, v):
        self.v = int(v)

    def __repr__(self):
        return f"{self.v}"


class CallTimeout(Exception):
    pass


class ChildCrash(Exception):
    """a driver stopped in one of its processes; inside: in the code under test"""

    def __init__(self, text, inside, tb):
        super().__init__(text)
        self.inside, self.tb = inside, tb


@contextlib.contextmanager
def alarm(seconds):
    def handler(signum, frame):
        raise CallTimeout(f"no answer after {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


SLOW = [0]


def guarded(fn, *a, timeout=20.0, **k):
    """call fn; returns (result, None) or (EXC, text)"""
    if SLOW[0] > 3:      # several calls never came back: the others are given less time
        timeout = min(timeout, 2.0)
    t0 = time.time()
    try:
        with alarm(timeout), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*a, **k), None
    except KeyboardInterrupt:
        raise
    except BaseException as e:  # SystemExit included: a library call must not exit
        if isinstance(e, CallTimeout) and time.time() - t0 >= 9:
            SLOW[0] += 1
        return EXC, f"{type(e).__name__}: {str(e)[:200]}"


class Trace:
    """recorded behaviours: list of sessions, each a list of (op, fields, note)"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.sessions = []
        self.rng = random.Random(seed * 1000003 + sum(ord(c) * 31 ** i for i, c in enumerate(prop)))
        self.nrng = np.random.default_rng(self.rng.randrange(2 ** 32))
        self.extra = {}
        self.open = None
        self.suppressed = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def begin(self):
        """start a session: events of one session stay in order in one run"""
        self.open = []
        self.sessions.append(self.open)

    def end(self):
        self.open = None

    def ev(self, op, *fields, flags=0, note=None):
        e = (op, (Raw(flags),) + tuple(fields), note)
        if self.open is None:
            self.sessions.append([e])
        else:
            self.open.append(e)

    def each(self, items, fn, workers=min(8, os.cpu_count() or 1)):
        """fn(trace, i, item) for every item, in several processes; every item has its own random
        numbers, so that the behaviours do not depend on the number of processes, and keep their order"""
        items = list(items)
        base = self.rng.randrange(2 ** 31)

        def one(i):
            t = Trace(self.prop, self.tier, self.seed)
            t.rng = random.Random(base + 7919 * i)
            t.nrng = np.random.default_rng([base, i])
            fn(t, i, items[i])
            return t.sessions

        procs = []
        for w in range(min(workers, len(items))):
            r, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    try:
                        out = ("ok", [(i, one(i)) for i in range(w, len(items), workers)])
                        blob = pickle.dumps(out)
                    except BaseException as e:
                        inside = any(f.filename.startswith(REPO + os.sep) for f in traceback.extract_tb(e.__traceback__))
                        blob = pickle.dumps(("crash", f"{type(e).__name__}: {e}"[:500], inside or isinstance(e, (ImportError, AttributeError)),
                                             isinstance(e, KeyboardInterrupt), traceback.format_exc()[-3000:]))
                    with os.fdopen(wr, "wb") as f:
                        f.write(blob)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(wr)
            procs.append((pid, r))
        got, bad = {}, None
        for pid, r in procs:
            with os.fdopen(r, "rb") as f:
                blob = f.read()
            os.waitpid(pid, 0)
            if not blob:
                raise RuntimeError("a driving process ended without an answer")
            out = pickle.loads(blob)
            if out[0] == "ok":
                got.update(out[1])
            else:
                bad = bad or out
        if bad:
            raise ChildCrash(bad[1], bad[2] and not bad[3], bad[4])
        for i in range(len(items)):
            self.sessions += got[i]

    def count(self):
        return sum(len(s) for s in self.sessions)

    def decoy(self, fn, a, args_tail, kw, gname):
        """the same arguments asked for another gas before: must not matter"""
        a = [np.array(x, copy=True) if isinstance(x, np.ndarray) else x for x in a]
        if args_tail:
            guarded(fn, *a, 1.27 if args_tail[0] != 1.27 else 1.35, timeout=3.0, **kw)
        elif gname in kw:
            guarded(fn, *a, timeout=3.0, **{**kw, gname: 1.27 if kw[gname] != 1.27 else 1.35})

    # -- vectorised call, one event per point ------------------------------
    def sweep(self, op, fn, cols, g=None, gmode="kw", mode="arr", pre=(), post=(), nout=1, timeout=20.0,
              kw=None, gname="gamma", grec=True, mid=()):
        """call fn on the points given by columns, in one of several shapes.

        fields recorded: flags, *pre, [gamma], *inputs, *outputs, *post
        mode: float | np64 | int | 0d | arr | size1 | 2d | strided | list-of those
        gmode: omit | pos | kw
        """
        cols = [np.asarray(c, dtype=float) for c in cols]
        n = len(cols[0])
        kw = dict(kw or {})
        args_tail = []
        if gmode == "kw":
            kw[gname] = g
        elif gmode == "pos":
            args_tail = [g]
        name = getattr(fn, "__module__", "?") + "." + getattr(fn, "__name__", "?")
        head = tuple(pre) + ((g,) if (g is not None and grec) else ()) + tuple(mid)

        def record(pt, outs, fl, note):
            self.ev(op, *head, *pt, *outs, *post, flags=fl, note=note)

        if mode in ("float", "np64", "int", "0d", "size1"):
            conv = {"float": float, "np64": np.float64, "int": lambda v: int(v), "0d": lambda v: np.array(float(v)),
                    "size1": lambda v: np.array([float(v)])}[mode]
            for i in range(n):
                pt = [float(c[i]) for c in cols]
                a = [conv(v) for v in pt]
                self.decoy(fn, a, args_tail, kw, gname)
                res, err = guarded(fn, *a, *args_tail, timeout=timeout, **kw)
                note = f"{name}({', '.join(map(repr, a + args_tail))}, {kw})" + (f" raised {err}" if err else "")
                if err:
                    record(pt, [EXC] * nout, RAISED, note)
                    continue
                outs = list(res) if nout > 1 and isinstance(res, (tuple, list)) else [res]
                fl = 0
                if len(outs) != nout:
                    outs = (outs + [EXC] * nout)[:nout]
                    fl |= SHAPE
                vals = []
                for o in outs:
                    ar = np.asarray(o) if o is not EXC else None
                    if ar is None or ar.size != 1 or (mode == "size1" and ar.shape != (1,)):
                        fl |= SHAPE
                        vals.append(EXC if ar is None or ar.size == 0 else np.ravel(ar)[0])
                    else:
                        vals.append(np.ravel(ar)[0])
                if mode in ("0d", "size1"):
                    if any(not np.array_equal(np.ravel(x), [p]) for x, p in zip(a, pt)):
                        fl |= MUTATED
                record(pt, vals, fl, note)
            return
        # array modes
        shown = None
        if mode == "big":
            # the points somewhere in a long array of the same points again and again
            big = self.nrng.permutation(np.concatenate([np.arange(n), self.nrng.integers(0, n, int(self.nrng.integers(70, 400)))]))
            shown = [int(np.flatnonzero(big == i)[-(i % 2)]) for i in range(n)]
            cols = [c[big] for c in cols]
        if mode in ("arr", "big"):
            a = [c.copy() for c in cols]
        elif mode == "intarr":
            a = [c.astype(int) for c in cols]
        elif mode == "2d":
            m = n - n % 2
            cols = [c[:m] for c in cols]
            a = [c.reshape(2, m // 2).copy() for c in cols]
        elif mode == "strided":
            a = []
            for c in cols:
                b = np.full(2 * n, 1.5)
                b[::2] = c
                a.append(b[::2])
        elif mode == "rev":
            cols = [c[::-1].copy() for c in cols]
            a = [c[::-1].copy()[::-1] for c in cols]
        elif mode == "colmajor":
            m = n - n % 2
            cols = [c[:m] for c in cols]
            a = [np.asfortranarray(c.reshape(2, m // 2)) for c in cols]
        else:
            raise ValueError(mode)
        n = a[0].size
        if n == 0:
            return
        for x in a:
            if mode != "intarr":
                x.setflags(write=True)
        keep = [x.copy() for x in a]
        self.decoy(fn, a, args_tail, kw, gname)
        # other values asked before in the very same arrays
        for x in a:
            x[...] = x[::-1].copy()
        guarded(fn, *a, *args_tail, timeout=3.0, **kw)
        for x, k in zip(a, keep):
            x[...] = k
        res, err = guarded(fn, *a, *args_tail, timeout=timeout, **kw)
        note0 = f"{name}(<{mode} array of {n}>, {args_tail}, {kw})"
        flat = [np.ravel(k) for k in keep]
        if err:
            # find a single failing point to report: record the first only
            record([f[0] for f in flat], [EXC] * nout, RAISED, note0 + f" raised {err}")
            return
        outs = list(res) if nout > 1 and isinstance(res, (tuple, list)) else [res]
        fl = 0
        if len(outs) != nout:
            outs = (outs + [np.full(a[0].shape, np.nan)] * nout)[:nout]
            fl |= SHAPE
        oo = []
        for o in outs:
            o = np.asarray(o)
            if o.shape != a[0].shape:
                fl |= SHAPE
                o = np.broadcast_to(np.ravel(o)[0] if o.size else np.nan, a[0].shape) if o.size != n else o.reshape(a[0].shape)
            oo.append(np.array(np.ravel(o), copy=True))
        if any(not np.array_equal(x, k) for x, k in zip(a, keep)):
            fl |= MUTATED
        # the very same arrays again: another memory layout rounds differently
        b = a
        for x, k in zip(a, keep):
            x[...] = k
        res2, err2 = guarded(fn, *b, *args_tail, timeout=timeout, **kw)
        if err2:
            fl |= REPEAT
        else:
            outs2 = list(res2) if nout > 1 and isinstance(res2, (tuple, list)) else [res2]
            for o, o2 in zip(oo, outs2):
                o2 = np.ravel(np.asarray(o2))
                at = np.abs(np.where(np.isfinite(o.astype(float)), o.astype(float), 0.)).max(initial=0.)
                if o2.shape != o.shape or not np.allclose(o, o2, rtol=1e-12, atol=1e-12 * at, equal_nan=True):
                    fl |= REPEAT
        for i in (range(n) if shown is None else shown):
            record([f[i] for f in flat], [o[i] for o in oo], fl, note0 + f" at {[float(f[i]) for f in flat]}")


# ---------------------------------------------------------------------------
def literal(e):
    op, fields, _ = e
    w = 0
    for i, x in enumerate(fields):
        w |= (enc(x) + OFF) << (256 * i)
    return f'("{op}",{hex(w)})'


def write_data(path, events, known=()):
    lines = ["// generated: the recorded behaviour", "module data {"]
    lines.append("  // deviations of the code listed in known_findings.json")
    lines.append("  pure val KNOWN: Set[str] = Set(" + ",".join(f'"{k}"' for k in known) + ")")
    chunks = [events[i:i + 25] for i in range(0, len(events), 25)]
    for c, ch in enumerate(chunks):
        lines.append(f"  pure val T{c}: List[(str, int)] = [" + ",".join(literal(e) for e in ch) + "]")
    groups = [list(range(i, min(i + 20, len(chunks)))) for i in range(0, len(chunks), 20)]
    for k, gr in enumerate(groups):
        lines.append(f"  pure val U{k}: List[List[(str, int)]] = [" + ",".join(f"T{c}" for c in gr) + "]")
    lines.append("  pure val TT: List[List[(str, int)]] = ["
                 + ",".join(f"U{k}" for k in range(len(groups))) + "].foldl([], (a, b) => a.concat(b))")
    lines.append(f"  pure val N: int = {len(events)}")
    lines.append("}")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")


def itf_value(v):
    if isinstance(v, dict):
        if "#bigint" in v:
            return int(v["#bigint"])
        if "#map" in v:
            return {json.dumps(itf_value(k)) if not isinstance(k, (str, int)) else k: itf_value(x) for k, x in v["#map"]}
        if "#set" in v:
            return [itf_value(x) for x in v["#set"]]
        if "#tup" in v:
            return [itf_value(x) for x in v["#tup"]]
        return {k: itf_value(x) for k, x in v.items() if not k.startswith("#")}
    if isinstance(v, list):
        return [itf_value(x) for x in v]
    return v


class SpecError(Exception):
    pass


def run_quint(args, cwd, timeout=600):
    env = dict(os.environ)
    env["HOME"] = env.get("HOME") or "/root"
    env.setdefault("NODE_OPTIONS", "--max-old-space-size=3500")
    p = subprocess.run([QUINT] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=timeout, env=env)
    return p


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf-")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def spec_copy(d):
    for f in os.listdir(SPEC):
        if f.endswith(".qnt"):
            shutil.copy(os.path.join(SPEC, f), os.path.join(d, f))


def validate_shard(module, events, seed, timeout=800, known=()):
    """run the specification over the recorded events; returns (consumed, verdict, last state, nstates)"""
    with scratch() as d:
        spec_copy(d)
        write_data(os.path.join(d, "data.qnt"), events, known)
        p = run_quint(["run", "--main", module, "--max-samples", "1", "--max-steps", str(len(events)), "--invariant", "inv",
                       "--out-itf=o.itf.json", "--seed", str(seed), "--verbosity=1", f"{module}.qnt"], d, timeout)
        f = os.path.join(d, "o.itf.json")
        if not os.path.exists(f):
            raise SpecError(f"quint failed on {module}: {p.stdout[-1500:]}")
        with open(f) as fh:
            states = json.load(fh)["states"]
        last = itf_value(states[-1])
        return last["l"], last["verdict"], last, len(states)


def shards_of(sessions, size, nmax):
    total = sum(len(s) for s in sessions)
    k = max(1, min(nmax, -(-total // size)))
    bins = [[] for _ in range(k)]
    loads = [0] * k
    for s in sessions:
        i = loads.index(min(loads))
        bins[i].append(s)
        loads[i] += len(s)
    return [b for b in bins if b]


def load_known(prop):
    """{id: what fails} of the findings listed (not the fixed ones) for a property"""
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return {}
    with open(f) as fh:
        return {k["id"]: k["what_fails"] for k in json.load(fh)["findings"] if k["property"] == prop}


def validate(tr, module, shard_size=500, jobs=8, max_fail=6):
    """validate all the sessions; returns list of failures (op, fields, note, clause, last)"""
    failures = []
    stats = dict(states=0, transitions=0, sessions=len(tr.sessions), events=tr.count(), known=set())
    listed = sorted(load_known(tr.prop))
    work = shards_of(tr.sessions, shard_size, 64)

    def job(bin_):
        out = []
        rest = list(bin_)
        nst = 0
        ntr = 0
        while rest:
            events = [e for s in rest for e in s]
            l, verdict, last, ns = validate_shard(module, events, tr.seed, known=listed)
            stats["known"] |= set(last.get("known", []))
            nst += ns
            ntr += ns - 1
            if verdict == "ok":
                if l != len(events):
                    bad = events[l]
                    out.append((bad, f"no action of the specification allows event {bad[0]}", last))
                    k = l
                else:
                    break
            else:
                k = l - 1
                out.append((events[k], verdict, last))
            if len(out) >= max_fail:
                break
            # drop everything up to and including the failing session
            pos = 0
            for i, s in enumerate(rest):
                pos += len(s)
                if k < pos:
                    rest = rest[i + 1:]
                    break
        return out, nst, ntr

    with ThreadPoolExecutor(max_workers=jobs) as ex:
        for out, nst, ntr in ex.map(job, work):
            failures += out
            stats["states"] += nst
            stats["transitions"] += ntr
    return failures, stats


def show(x):
    if isinstance(x, Raw):
        return x.v
    if x is EXC:
        return "raised"
    if x is None:
        return "none"
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    try:
        return float(x)
    except Exception:
        return str(x)


def jsonable(e):
    return {"op": e[0], "flags": e[1][0].v, "fields": [show(x) if not isinstance(show(x), float) or math.isfinite(show(x))
                                                       else str(show(x)) for x in e[1][1:]], "call": e[2]}


def generate(module, main, seed, samples, steps, mbt=True, timeout=300, invariant=None, extra_data=None):
    """Direction A: behaviours generated from the specification (list of list of states)"""
    with scratch() as d:
        spec_copy(d)
        args = ["run", "--main", main, "--max-samples", str(samples), "--n-traces", str(samples), "--max-steps", str(steps),
                "--out-itf=g_{seq}.itf.json", "--seed", str(seed), "--verbosity=1"]
        if mbt:
            args.append("--mbt")
        if invariant:
            args += ["--invariant", invariant]
        p = run_quint(args + [f"{module}.qnt"], d, timeout)
        res = []
        for f in sorted(os.listdir(d)):
            if f.startswith("g_") and f.endswith(".itf.json"):
                with open(os.path.join(d, f)) as fh:
                    res.append([itf_value(s) for s in json.load(fh)["states"]])
        if not res:
            raise SpecError(f"quint generated nothing for {module}: {p.stdout[-1500:]}")
        if invariant and p.returncode != 0:
            raise SpecError(f"specification {module} violates its own invariant {invariant}: {p.stdout[-1500:]}")
        return res


def model_check(module, main, invariant, init=None, step=None, timeout=600):
    """exhaustive check of a finite specification with TLC through quint verify; returns (distinct states, generated)"""
    import re
    with scratch() as d:
        spec_copy(d)
        names = (["--init", init] if init else []) + (["--step", step] if step else [])
        for attempt in range(3):
            with socket.socket() as k:      # a port of its own for the translator of quint
                k.bind(("localhost", 0))
                port = k.getsockname()[1]
            p = run_quint(["verify", "--backend", "tlc", "--server-endpoint", f"localhost:{port}", "--main", main, "--invariant", invariant]
                          + names + [f"{module}.qnt"], d, timeout)
            txt = p.stdout
            if p.returncode == 0 or "states found" in txt:
                break
            time.sleep(2)
        if p.returncode != 0:
            raise SpecError(f"TLC rejects {module}: {txt[-2000:]}")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if m:
            return int(m.group(2)), int(m.group(1))
        m = re.search(r"([\d,]+) states generated.*?([\d,]+) distinct", txt, re.S)
        if m:
            return int(m.group(2).replace(",", "")), int(m.group(1).replace(",", ""))
        return 0, 0


def write_evidence(prop, data):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


def write_replay(prop, k, obj):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{k}.json")
    with open(path, "w") as f:
        json.dump(obj, f, indent=1)
        f.write("\n")
    return path


def picks(state):
    """{name: value} of the nondeterministic choices of a step generated with --mbt"""
    return {k: v["value"] for k, v in state.get("mbt::nondetPicks", {}).items() if v.get("tag") == "Some"}
