"""Plans, runs and the run context."""
import hashlib
import json
import logging
import os
import random
import resource
import signal
import sys
import traceback
import warnings

from . import seams
from .seams import S

import numpy as np

CPU_LIMIT = 150          # CPU seconds one run may use before it is reported as not terminating


_FINDINGS = []


def load_findings():
    if not _FINDINGS:
        import json
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
        _FINDINGS.append(json.load(open(p)).get("findings", []) if os.path.exists(p) else [])
    return _FINDINGS[0]


class Violation(Exception):
    def __init__(self, kind, detail=""):
        Exception.__init__(self, kind, detail)
        self.kind, self.detail = kind, detail


class Abandon(Exception):
    """The run has nothing (more) to decide, e.g. a degenerate configuration came up."""


class HarnessError(Exception):
    pass


class CpuLimit(BaseException):
    pass


def rng_for(*parts):
    h = hashlib.sha256(("/".join(str(p) for p in parts)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def seed32(*parts):
    h = hashlib.sha256(("/".join(str(p) for p in parts)).encode()).digest()
    return int.from_bytes(h[8:12], "big")


class Ctx(object):
    """What a property's run talks to: logging, fault arming, checks, statistics."""

    def __init__(self, prop, plan):
        self.prop, self.plan = prop, plan
        self._h = hashlib.sha256()
        self.nlog = 0
        self.states = set()
        self.probes = {}
        self.nops = 0
        self.nchecks = 0
        self.last = ("start",)
        self.cfgclass = plan.get("cls", "")
        self.trace = []
        self.keep_trace = False
        self.simtime = 0.0
        self.expected_exc = ()
        self.known_hits = {}

    def known(self, kid, detail=""):
        """A recorded, unrepaired defect showed: counted if known_findings.json lists it, a violation otherwise."""
        for k in load_findings():
            if k["id"] == kid and k["property"] == self.prop:
                self.known_hits[kid] = self.known_hits.get(kid, 0) + 1
                self.log("known", kid)
                return
        raise Violation(kid, detail)

    # -- event log
    def log(self, *a):
        s = "|".join(self._s(x) for x in a)
        self._h.update(s.encode())
        self._h.update(b"\n")
        self.nlog += 1
        if self.keep_trace and len(self.trace) < 2000:
            self.trace.append(s)

    def _s(self, x):
        if isinstance(x, (float, np.floating)):
            return float(x).hex()
        if isinstance(x, (complex, np.complexfloating)):
            return "%s,%s" % (float(x.real).hex(), float(x.imag).hex())
        if isinstance(x, np.ndarray):
            return hashlib.sha256(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]
        if isinstance(x, (list, tuple)):
            return "[" + ",".join(self._s(y) for y in x) + "]"
        return str(x)

    def digest(self):
        return self._h.hexdigest()[:32]

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *tup):
        """Records a (coarse) state reached; the coverage measure counts distinct ones over all runs."""
        self.states.add("/".join(str(t) for t in tup))

    def op(self, name, cls=()):
        self.nops += 1
        self.state(self.cfgclass, self.last[0], name, *cls)
        self.last = (name,)
        self.log("op", name, *[str(c) for c in cls])

    # -- checks
    def check(self, ok, kind, detail=""):
        self.nchecks += 1
        if not ok:
            if callable(detail):
                detail = detail()
            self.log("VIOLATION", kind)
            raise Violation(kind, str(detail))

    def close(self, got, want, tol, kind, detail="", scale=None):
        """|got - want| <= tol * max(1, |want|) (or the given scale), everything finite, shapes equal."""
        self.nchecks += 1
        try:
            g = np.asarray(got, dtype=complex)
            w = np.asarray(want, dtype=complex)
        except (TypeError, ValueError):
            raise Violation(kind, "%s: result is not numeric: %r" % (detail, type(got)))
        if g.shape != w.shape:
            if g.size == w.size:
                g = g.reshape(w.shape)
            else:
                raise Violation(kind, "%s: shape %s, expected %s" % (detail, g.shape, w.shape))
        if g.size == 0:
            return 0.0
        d = np.abs(g - w)
        sc = scale if scale is not None else max(1.0, float(np.max(np.abs(w))))
        e = float(np.max(d)) if np.all(np.isfinite(g)) else float("inf")
        if not (e <= tol * sc):
            det = detail() if callable(detail) else detail
            i = int(np.argmax(np.where(np.isfinite(d), d, np.inf)))
            raise Violation(kind, "%s: got %r, expected %r (error %.3g, tolerance %.3g)" % (
                det, complex(g.ravel()[i]), complex(w.ravel()[i]), e, tol * sc))
        return e

    # -- calling the code under test
    def call(self, name, fn, faults=None, seed=None, allow=(), ret_exc=False):
        """Runs fn() (which calls evoMPS) with the given faults armed.

        Returns (value, None) or (None, exception).  An exception that no fault of this call can explain and that is
        not in `allow` is a violation."""
        if seed is not None:
            np.random.seed(seed % (2 ** 32))
            S.start_rng = np.random.RandomState((seed * 7 + 13) % (2 ** 32))
        S.arm(faults)
        try:
            v = fn()
            fired = list(S.fired)
            self.log("ret", name, fired)
            return (v, None)
        except (CpuLimit, Violation, Abandon, HarnessError, seams.SimCrash):
            raise
        except BaseException as e:
            fired = list(S.fired)
            self.log("exc", name, type(e).__name__, fired)
            tb = traceback.extract_tb(sys.exc_info()[2])
            frames = [t for t in tb if seams.in_pkg(t.filename)]
            injected = isinstance(e, seams.INJECTED)
            if injected or (allow and isinstance(e, allow)) or (fired and ret_exc):
                return (None, e)
            if frames:
                t = frames[-1]
                raise Violation("exception-" + type(e).__name__,
                                "%s raised %s: %s at %s:%d in %s (faults fired: %s)" % (
                                    name, type(e).__name__, str(e)[:300], os.path.basename(t.filename), t.lineno, t.name, fired))
            # evoMPS never got to run: e.g. a method that no longer exists, or a bug of the harness
            if isinstance(e, (AttributeError, TypeError)) and "evoMPS" in str(e):
                raise Violation("exception-" + type(e).__name__, "%s: %s" % (name, e))
            raise
        finally:
            S.disarm()

    def must(self, name, fn, seed=None):
        return self.call(name, fn, None, seed)[0]


def run_plan(propmod, plan, keep_trace=False):
    """Executes one plan in this process and returns the result record."""
    S.reset()
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    np.seterr(all="ignore")
    seed = plan["run_seed"]
    np.random.seed(seed % (2 ** 32))
    random.seed(seed)
    S.start_rng = np.random.RandomState((seed + 17) % (2 ** 32))
    S.garbage = plan.get("garbage")
    S.garbage_rng = np.random.RandomState((seed + 99) % (2 ** 32))
    ctx = Ctx(plan["prop"], plan)
    ctx.keep_trace = keep_trace
    rec = dict(seed=seed, outcome="ok", kind=None, detail=None)
    devnull = open(os.devnull, "w")
    so, sys.stdout = sys.stdout, devnull
    try:
        try:
            propmod.execute(plan, ctx)
        finally:
            sys.stdout = so
            sys.settrace(None)
            S.disarm()
    except Violation as v:
        rec.update(outcome="violation", kind=v.kind, detail=v.detail)
    except Abandon as a:
        rec.update(outcome="abandoned", detail=str(a))
    except CpuLimit:
        rec.update(outcome="violation", kind="no-termination",
                   detail="run exceeded %d s of CPU time during %s" % (CPU_LIMIT, ctx.last))
    except BaseException as e:
        rec.update(outcome="harness_error", kind=type(e).__name__,
                   detail="".join(traceback.format_exception(*sys.exc_info()))[-3000:])
    rec.update(digest=ctx.digest(), nops=ctx.nops, nchecks=ctx.nchecks, states=sorted(ctx.states), probes=ctx.probes,
               known=ctx.known_hits, fired=S.total_fired, calls=S.calls_total, simtime=float(ctx.simtime), nlog=ctx.nlog)
    if keep_trace:
        rec["trace"] = ctx.trace
    return rec


def _on_cpu(sig, frm):
    raise CpuLimit()


def run_forked(propmod, plan, wall=900, keep_trace=False):
    """Executes one plan in a forked child: no hidden state survives from run to run."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGPROF, _on_cpu)
            lim = int(plan.get("cpu_limit", CPU_LIMIT))
            signal.setitimer(signal.ITIMER_PROF, lim, 5)
            resource.setrlimit(resource.RLIMIT_CPU, (lim + 60, lim + 90))
            rec = run_plan(propmod, plan, keep_trace)
            signal.setitimer(signal.ITIMER_PROF, 0)
            data = json.dumps(rec).encode()
            k = 0
            while k < len(data):
                k += os.write(w, data[k:k + 65536])
        except BaseException:
            code = 1
            try:
                traceback.print_exc()
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    import select
    ok = True
    while True:
        rd, _, _ = select.select([r], [], [], wall)
        if not rd:
            ok = False
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if ok:
        try:
            return json.loads(b"".join(chunks).decode())
        except ValueError:
            pass
    if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU,):
        return dict(seed=plan["run_seed"], outcome="violation", kind="no-termination", detail="CPU limit", digest="",
                    nops=0, nchecks=0, states=[], probes={}, fired={}, calls={}, simtime=0.0, nlog=0)
    return dict(seed=plan["run_seed"], outcome="harness_error", kind="child-died", detail="status %r ok=%r" % (status, ok),
                digest="", nops=0, nchecks=0, states=[], probes={}, fired={}, calls={}, simtime=0.0, nlog=0)
