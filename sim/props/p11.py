"""P11: evolution drivers take exactly the requested steps and report them."""
import copy

import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from .. import sandwich as SD
from .. import twin as T
from .. import uniform as U
from ..core import Abandon
from . import p01, p05, p09, p15

TOL = 1e-7
CUT = 1e-4      # smallest Schmidt value for which histories are compared


def shrink(plan):
    c = plan["config"]
    return (SD.shrink_scfg if "DL" in c else U.shrink_ucfg if "L" in c else F.shrink_cfg)(plan)


def gen(rng, tier, idx):
    kind = rng.choice("FFFUUUSS")
    if kind == "F":
        cfg = F.gen_cfg(rng, tdvp=True, Nmax=5, Dmax=4, dmax=100)
        cls = F.cfg_class(cfg)
    elif kind == "U":
        cfg = U.gen_ucfg(rng, tdvp=True, real_ok=False, kinds=("random", "tensors", "product"), Dmax=4, Lmax=2)
        cls = U.ucfg_class(cfg)
    else:
        cfg = SD.gen_scfg(rng, tdvp=True, Nmax=5)
        cls = SD.scfg_class(cfg)
    ops = []
    for j in range(rng.randint(1, 2)):
        u = rng.random()
        if kind == "F" and u < 0.25:
            k = rng.choice(["ode", "ode", "split", "split"])
        else:
            k = "evolve"
        ops.append(dict(op=k, seed=rng.randrange(1 << 30), integ=rng.choice(["euler", "rk4", "Euler", "RK4", "rk4"]),
                        dt=rng.choice([0.01, 0.02, 0.03, 0.1 / 3, 0.05, 0.007]) * rng.choice([1, 1, 1, -1]),
                        n=rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]), off=rng.choice([0, 0, 0, 1e-12, -1e-12, 0.2, -0.2, 0.4, -0.4]),
                        sum=rng.random() < 0.3, dynexp=rng.random() < 0.5, D_max=rng.choice([2, 3, 4, 5, 128]), dD_max=rng.choice([1, 1, 2, 128]),
                        sv_tol=rng.choice([1e-14, 1e-9, 1e-9, 1e-6, 1e-4, 1e-4]), at=rng.random() < 0.5, cb=rng.random() < 0.8, look=rng.random() < 0.5,
                        cut=rng.random(), raise_at=rng.random() if rng.random() < 0.4 else None, defaults=rng.random() < 0.15,
                        which=rng.choice(["new", "new", "old", "oldreal"]), imag=rng.random() < 0.5, two=rng.random() < 0.4,
                        edit=rng.choice(p09.FE if kind == "F" else p09.UE), ed=rng.random() < 0.3))
    return dict(config=cfg, ops=ops, cls=kind + cls, garbage=rng.choice(["nan", "nan", "noise", None]))


class Seen(Exception):
    """Raised by an observer."""


class W(object):
    phase = True
    """The three kinds of worlds alike."""

    def __init__(self, ctx, cfg):
        self.ctx, self.cfg = ctx, cfg
        self.kind = "S" if "DL" in cfg else "U" if "L" in cfg else "F"
        self.w = (SD.SW if self.kind == "S" else U.UW if self.kind == "U" else F.FW)(ctx, cfg)

    def settle(self, op):
        if self.kind == "S":
            if p15.well(self.w) < 0.01:
                raise Abandon("ill-conditioned")
            self.ctx.must("update", lambda: self.w.s.update())
            if p15.well(self.w) < 0.01:
                raise Abandon("ill-conditioned")
        else:
            p09.settle(self.w, op)

    def twin(self):
        t = copy.copy(self)
        t.w = T.world_twin(self.w)
        return t

    def ref(self):
        w = self.w
        return w.sand().rdms() if self.kind == "S" else w.A() if self.kind == "U" else w.psi()

    def cond(self):
        w = self.w
        if self.kind == "S":
            if not all(np.all(np.isfinite(a)) for a in w.A()):
                return 0.0
            return p15.well(w)
        if self.kind == "U":
            if not w.good(0.985):
                return 0.0
            return w.min_schmidt()
        n0 = nla.norm(w.psi().ravel())
        if not 1e-6 < n0 < 1e8:
            return 0.0
        return w.min_schmidt()

    def same(self, ref, kind, what, tol=TOL):
        w = self.w
        if self.kind == "S":
            w.same_rdms(ref, tol, kind, what)
        elif self.kind == "U":
            w.same_state(ref, tol, kind, what)
        else:
            w.same_state(ref, tol, kind, what=what, phase=self.phase)

    def dims(self):
        s = self.w.s
        return [int(s.D)] if self.kind == "U" else [int(d) for d in s.D[:s.N + 1]]

    def current(self, what):
        """The object is up to date."""
        w, ctx = self.w, self.ctx
        c = self.cond()
        if c < 1e-3:
            return
        if self.kind == "F":
            w.check_envs(1e-8)
            E = w.energy()
            ctx.close(complex(w.s.H_expect), E, 1e-7 * (1 + abs(E)), "not-up-to-date", what + ": H_expect")
        elif self.kind == "U":
            w.check_fixed_points(1e-7)
            E = w.energy()
            ctx.close(complex(w.s.h_expect), E, 1e-7 * (1 + abs(E)), "not-up-to-date", what + ": h_expect")
        else:
            p15.envs(w, 1e-7)

    def update(self, at):
        s = self.w.s
        if self.kind == "S":
            s.update(auto_truncate=False)
        else:
            s.update(auto_truncate=at)

    def by_hand(self, n, dt, op, seed):
        """The same steps one by one; the states at every time point."""
        s, ctx = self.w.s, self.ctx
        out = []
        D_max, dD_max, sv = op["D_max"], op["dD_max"], op["sv_tol"]
        for i in range(n + 1):
            ctx.must("update", lambda: self.update(op["at"]), seed=seed + i)
            if self.cond() < CUT:
                raise Abandon("ill-conditioned")
            out.append((self.ref(), self.dims(), tang(ctx, s) if op["look"] else None))
            if i == n:
                return out
            grow = op["dynexp"] and bool(s.maxD_is_less_than(D_max))
            kw = dict(D_max=D_max, dD_max=dD_max, sv_tol=sv)
            if op["integ"].lower() == "euler":
                if grow:
                    ctx.must("take_step", lambda: s.take_step(1j * dt, dynexp=True, **kw), seed=seed + i)
                else:
                    ctx.must("take_step", lambda: s.take_step(1j * dt), seed=seed + i)
            else:
                rest = dt
                if grow:
                    first = dt * abs(dt) ** 1.5
                    rest = dt - first
                    ctx.must("take_step", lambda: s.take_step(1j * first, dynexp=True, **kw), seed=seed + i)
                    if self.kind == "U":
                        ctx.must("update", lambda: s.update(restore_CF=op["at"], auto_truncate=op["at"]), seed=seed + i)
                    else:
                        ctx.must("update", lambda: s.update(restore_CF=op["at"], normalize=op["at"], auto_truncate=op["at"]), seed=seed + i)
                    if self.cond() < CUT:
                        raise Abandon("ill-conditioned")
                ctx.must("take_step_RK4", lambda: s.take_step_RK4(1j * rest), seed=seed + i)
            ctx.simtime += abs(dt)


def tang(ctx, s):
    """Size of the tangent vector."""
    B = ctx.must("calc_B", lambda: s.calc_B())
    return complex(s.eta) if np.ndim(s.eta) == 0 else complex(np.sqrt(np.sum(s.eta)))


def execute(plan, ctx):
    k = W(ctx, plan["config"])
    st = dict(fresh=False, canon=False)
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        if op["ed"] and k.kind == "F":
            psi = k.w.psi()
            p01.do_edit(k.w, dict(op, op=op["edit"]), rs, psi, nla.norm(psi.ravel()))
        elif op["ed"] and k.kind == "U":
            p05.edit(k.w, dict(op, op=op["edit"]), rs, st)
        k.settle(op)
        ctx.op(op["op"], (k.kind, op["integ"].lower(), op["dynexp"], op["at"], op["n"], op["off"] != 0, op["cb"], op["raise_at"] is not None,
                          op["which"], op["two"]))
        k.phase = True
        globals()["do_" + op["op"]](k, op, rs)


def total(op):
    """A total time of which op["n"] steps of size dt are the nearest number."""
    n, dt = op["n"], op["dt"]
    if op["sum"]:
        t = 0.0
        for _ in range(n):
            t += dt
        return t
    off = op["off"]
    if n == 0 and off < 0:
        off = -off
    return (n + off) * dt


def do_evolve(k, op, rs):
    from evoMPS.dynamics import evolve
    ctx, n, dt = k.ctx, op["n"], op["dt"]
    s = k.w.s
    if k.kind == "S":
        op = dict(op, at=False)
    if op["defaults"]:
        op = dict(op, integ="euler", dynexp=True, D_max=128, dD_max=128, sv_tol=1e-14, at=True, dt=0.01, n=min(op["n"], 2))
        dt, n = op["dt"], op["n"]
        if k.kind == "S" or op["dynexp"] and (max(k.dims()) > 2 or k.kind == "U" and k.w.sites == 3):
            return
    if op["dynexp"] and k.kind == "U" and k.w.sites == 3:
        op = dict(op, dynexp=False)       # (documented for nearest-neighbour Hamiltonians)
    if op["dynexp"] and k.kind == "U" and op["dD_max"] > 2 and n > 1:
        op = dict(op, D_max=min(op["D_max"], 5))
    if op["dynexp"] and k.kind == "S":
        op = dict(op, D_max=min(op["D_max"], 5))
    seed = op["seed"]
    hk = k.twin()
    start = k.twin()
    states = hk.by_hand(n, dt, op, seed)
    ham0 = T.ham_copy(k.w.s.ham)

    def kws(o):
        return {} if o["defaults"] else dict(dt=dt, integ=o["integ"], dynexp=o["dynexp"], D_max=o["D_max"], dD_max=o["dD_max"], sv_tol=o["sv_tol"],
                                             auto_truncate=o["at"])
    noisy = op["dynexp"] and op["sv_tol"] < 1e-12      # (what is expanded may depend on rounding errors)

    def dims(o, want, kind, what):
        if o.dims() != want and noisy:
            raise Abandon("expansion within rounding errors")
        ctx.check(o.dims() == want, kind, "%s: bond dimensions %s, by hand %s" % (what, o.dims(), want))
    log = []
    stop = None
    if op["raise_at"] is not None:
        stop = int(op["raise_at"] * (n + 1))

    def cb(sys, i, off=0):
        log.append(int(i))
        j = int(i) + off
        ctx.check(sys is k.w.s, "observer", "the observer got another object")
        if j < len(states):
            ref, D, eta = states[j]
            dims(k, D, "observer-state", "time point %d" % j)
            k.same(ref, "observer-state", "state at time point %d of %d" % (j, n))
            if op["look"]:
                e = complex(sys.eta)
                ctx.close(e, eta, 1e-5 * (1 + abs(eta)), "observer-state", "eta at time point %d" % j)
                k.current("time point %d" % j)
        if stop is not None and len(log) == stop + 1:
            raise Seen("observer")
    t = total(op) if not op["defaults"] else n * dt
    kw = kws(op)
    use = cb if (op["cb"] or stop is not None) else None
    if use is not None:
        kw["cb_func"] = use
    v, e = ctx.call("evolve", lambda: evolve(s, t, **kw), seed=seed, allow=(Seen,))
    done = n
    if stop is not None:
        ctx.check(isinstance(e, Seen), "observer-error-lost", "error raised at time point %d: %r" % (stop, e))
        ctx.check(log == list(range(stop + 1)), "observer-calls", "calls before the error: %s" % log)
        ctx.probe("observer-raised")
        k.same(states[stop][0], "observer-state", "state after the error")
        done = stop
        # the rest
        stop = None
        log2 = log[:]
        del log[:]
        kw.pop("cb_func", None)
        kw["cb_func"] = lambda sys, i: cb(sys, i, off=done)
        v, e = ctx.call("evolve", lambda: evolve(s, (n - done) * (dt if not op["defaults"] else 0.01), **kw), seed=seed)
        ctx.check(log == list(range(n - done + 1)), "observer-calls", "%s for %d steps" % (log, n - done))
        del log2
    elif use is not None:
        ctx.check(log == list(range(n + 1)), "observer-calls", "%s for t = %r, dt = %r (%d steps)" % (log, t, dt, n))
    ctx.check(v is s, "return", "evolve returned another object")
    dims(k, states[n][1], "final-state", "end")
    k.same(states[n][0], "final-state", "t = %r, dt = %r (%d steps), %s, dynexp %s" % (t, dt, n, op["integ"], op["dynexp"]))
    k.current("end")
    ctx.check(T.ham_same(ham0, k.w.s.ham), "hamiltonian-changed", "evolve")
    # split anywhere, watched or not
    a = int(op["cut"] * (n + 1))
    parts = [a, n - a] if rs.rand() < 0.5 else [0, a, n - a]
    kw = kws(op)
    for m in parts:
        if rs.rand() < 0.3:
            kw["cb_func"] = lambda sys, i: None
        tt = m * (dt if not op["defaults"] else 0.01)
        ctx.must("evolve", lambda: evolve(start.w.s, tt, **kw), seed=seed + m)
    dims(start, states[n][1], "split-run", "in parts %s" % parts)
    start.same(states[n][0], "split-run", "evolved in parts of %s steps, %s, dynexp %s" % (parts, op["integ"], op["dynexp"]))
    # maximal bond dimension: the exact evolution
    if k.kind == "F" and n and not op["dynexp"] and op["integ"].lower() == "rk4" and k.dims() == full(k.w) and start0_ok(states[0][0]):
        H = sum_ham(k.w, states[0][0].shape)
        wv, V = nla.eigh(H)
        want = (V @ (np.exp(-1j * n * dt * wv) * (V.conj().T @ states[0][0].ravel())))
        nh = max(abs(wv))
        d = M.ray_dist(k.w.psi(), want)
        ctx.check(d <= n * (nh * abs(dt)) ** 5 + 1e-7, "exact-evolution", "distance %.3g from the exact state" % d)
        ctx.probe("exact")


def start0_ok(x):
    return nla.norm(x.ravel()) > 1e-6


def full(w):
    N = w.N
    return [1] + [min(int(np.prod(w.q[:n])), int(np.prod(w.q[n:]))) for n in range(1, N)] + [1]


def sum_ham(w, shape):
    d = int(np.prod(shape))
    return np.array([M.ham_apply(e.reshape(shape), w.terms).ravel() for e in np.eye(d, dtype=complex)]).T


def do_ode(k, op, rs):
    from evoMPS import dynamics as dy
    ctx, w, s = k.ctx, k.w, k.w.s
    if w.min_schmidt() < 0.03 or w.s.canonical_form != w.s.gauge_fixing:
        return
    T_ = abs(op["dt"]) * max(1, op["n"])
    psi0 = w.psi()
    Ds = k.dims()
    flow = M.Flow(w.terms, Ds)
    rtol = rs.choice([1e-7, 1e-9])
    atol = rtol * 0.01
    log = []
    steps = 500
    stop = rs.randint(1, 4) if op["raise_at"] is not None else None
    few = op["which"] == "new" and rs.rand() < 0.2
    cur = dict(t=0.0, psi=psi0)

    def exact(t):
        dt = t - cur["t"]
        m = 1 + int(abs(dt) / 0.01)
        cur.update(t=t, psi=flow.rk4(cur["psi"], 1j * dt, m))
        return cur["psi"]

    def look(sys, ig, i):
        ctx.check(sys is s, "observer", "the observer got another object")
        t = float(ig.t)
        if log:
            ctx.check(t > log[-1][1], "observer-time", "time goes from %r to %r" % (log[-1][1], t))
        else:
            ctx.close(t, 0.0, 0, "observer-time", "first report")
        log.append((int(i), t))
        psi = exact(t)
        if w.min_schmidt() < 0.01:
            raise Abandon("ill-conditioned")
        d = M.ray_dist(w.psi(), psi)
        ctx.check(d <= 3e3 * rtol * (1 + t) * len(log) + 1e-7, "observer-state", "report %d at t = %.4g: distance %.3g from the projected dynamics" % (i, t, d))
        k.current("report at t = %.4g" % t)
        if stop is not None and len(log) == stop:
            raise Seen("observer")
    if op["which"] == "new":
        steps = 2 if few else 500
        fn = lambda: dy.evolve_scipy_ode(s, T_, steps, rtol=rtol, atol=atol, callback=look)
    else:
        n = max(1, op["n"])
        fn = lambda: dy.evolve_scipy_ode_old(s, T_ / n, n, rtol=rtol, atol=atol, callback=look, wrap_to_real=op["which"] == "oldreal")
    v, e = ctx.call("evolve_scipy_ode", fn, seed=op["seed"], allow=(Seen,))
    ctx.simtime += T_
    if isinstance(e, Seen):
        ctx.probe("observer-raised")
        return
    ctx.check(stop is None or len(log) < stop, "observer-error-lost", "evolve_scipy_ode")
    ctx.check([i for i, _ in log] == list(range(len(log))), "observer-calls", "%s" % log)
    if op["which"] == "new":
        if few:
            ctx.check(1 <= len(log) <= steps, "observer-calls", "%d reports in %d steps" % (len(log), steps))
            ctx.must("update", lambda: s.update())
            return
        ctx.close(log[-1][1], T_, 1e-12, "observer-time", "last report")
    else:
        ctx.check(len(log) == n, "observer-calls", "%d reports in %d steps" % (len(log), n))
        for i, t in log:
            ctx.close(t, i * T_ / n, 1e-9, "observer-time", "report %d" % i)
    ctx.must("update", lambda: s.update())
    d = M.ray_dist(w.psi(), exact(T_))
    ctx.check(d <= 3e3 * rtol * (1 + T_) * (1 + len(log)) + 1e-7, "final-state", "distance %.3g from the projected dynamics at the end" % d)


def do_split(k, op, rs):
    """evolve_split: so many steps, whether in one call or several."""
    from evoMPS.split_step import evolve_split
    ctx, w, s = k.ctx, k.w, k.w.s
    if s.canonical_form != "right":
        return
    n = op["n"]
    k.phase = False
    dtau = abs(op["dt"]) * (1.0 if op["imag"] else 1j)
    ham = [None] + [np.zeros(tuple(w.q[i:i + w.sites]) * 2, dtype=complex) if t is None else t for i, t in enumerate(w.hterms)]
    two = op["two"]
    kw = dict(print_progress=False, expm_max_steps=200)
    if two:
        kw.update(two_site=True, D_max=max(2, min(op["D_max"], 6)), min_schmidt=1e-7, switch_to_1site=op["at"])
    hk = k.twin()
    states = [hk.ref()]
    for i in range(n):
        ctx.must("evolve_split", lambda: evolve_split(hk.w.s, ham, w.sites, dtau, 1, **kw), seed=op["seed"] + i)
        if hk.cond() < CUT:
            raise Abandon("ill-conditioned")
        states.append(hk.ref())
    log = []
    stop = int(op["raise_at"] * n) if op["raise_at"] is not None and n else None

    def cb(sys, i, **info):
        log.append(int(i))
        ctx.check(sys is s, "observer", "the observer got another object")
        k.same(states[i + 1], "observer-state", "after split step %d" % i)
        if stop is not None and len(log) == stop + 1:
            raise Seen("observer")
    v, e = ctx.call("evolve_split", lambda: evolve_split(s, ham, w.sites, dtau, n, cb_func=cb, **kw), seed=op["seed"], allow=(Seen,))
    ctx.simtime += abs(dtau) * n
    if stop is not None:
        ctx.check(isinstance(e, Seen) and log == list(range(stop + 1)), "observer-error-lost", "evolve_split: %r, calls %s" % (e, log))
        ctx.probe("observer-raised")
        ctx.must("update", lambda: s.update())
        k.same(states[stop + 1], "observer-state", "state after the error")
        k.current("after the error")
        return
    ctx.check(log == list(range(n)), "observer-calls", "%s for %d split steps" % (log, n))
    ctx.check(v is s, "return", "evolve_split returned another object")
    k.same(states[n], "final-state", "%d split steps" % n)
    ctx.must("update", lambda: s.update())
    k.same(states[n], "final-state", "%d split steps, update" % n)
    k.current("end")
    if not two:
        # the method of the class does the same step
        z = k.twin()
        ref = k.ref()
        o = k.twin()
        ctx.must("take_step_split", lambda: F.take_step_split(ctx, z.w.s, dtau, print_progress=False), seed=op["seed"])
        ctx.must("evolve_split", lambda: evolve_split(o.w.s, ham, w.sites, dtau, 1, **kw), seed=op["seed"])
        if o.cond() > CUT:
            z.same(o.ref(), "final-state", "take_step_split and one step of evolve_split", tol=1e-6)
        del ref
