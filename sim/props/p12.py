"""P12: ground-state searches descend, stay variational and end converged."""
import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from .. import uniform as U
from ..core import Abandon
from . import p01, p05, p09, p11

CUT = 1e-3


def shrink(plan):
    return (U.shrink_ucfg if "L" in plan["config"] else F.shrink_cfg)(plan)


UOPS = ["im", "im", "im", "cg", "cg", "cg", "gd", "gd", "find", "find", "cg2"]
FOPS = ["im", "im", "cg", "cg", "cg", "sweep", "sweep", "dmrg", "dmrg", "split", "grow"]
FAULTS = [("eigs", "noconv"), ("eigs", "unlucky"), ("bicgstab", "status_garbage"), ("bicgstab", "status_partial"), ("eigs", "noconv_partial")]
FFAULTS = [("eigsh", "noconv"), ("eigsh", "unlucky"), ("eigh", "fail"), ("svd", "fail")]


def gen(rng, tier, idx):
    kind = rng.choice("FFUUUM")
    if kind == "F":
        cfg = F.gen_cfg(rng, tdvp=True, Nmax=6, Dmax=4, dmax=130)
        if rng.random() < 0.6:
            cfg["ham"]["missing"] = []
        cls = F.cfg_class(cfg)
        names = FOPS
    else:
        cfg = U.gen_ucfg(rng, tdvp=True, real_ok=False, kinds=("random", "tensors", "product", "biased"), Dmax=3 if kind == "U" else 2, Lmax=2,
                         qmax=2 if rng.random() < 0.8 else 3)
        if kind == "M":        # models whose ground states are known
            cfg["L"] = 1
            if rng.random() < 0.75:
                cfg["q"] = 2
                cfg["D"] = rng.choice([1, 2, 2, 3])
                cfg["ham"] = dict(sites=2, kind="ising", g=rng.choice([1.5, 2.0, 3.0]), seed=0, callable=rng.random() < 0.15, tp=rng.random() < 0.2, scale=rng.choice([1.0, 0.5]))
            else:
                cfg["q"] = 3
                cfg["D"] = 2
                cfg["ham"] = dict(sites=2, kind="aklt", seed=0, callable=rng.random() < 0.15, tp=rng.random() < 0.2, scale=1.0)
        cls = kind + U.ucfg_class(cfg)
        names = UOPS
    ops = []
    for j in range(rng.randint(1, 2) if kind != "M" else 1):
        f = None
        if rng.random() < 0.25:
            st, kd = rng.choice(FFAULTS if kind == "F" else FAULTS)
            f = dict(site=st, kind=kd, nth=rng.randint(0, 12), count=rng.randint(1, 3), frac=rng.random())
        ops.append(dict(op=rng.choice(names) if kind != "M" else rng.choice(["goal", "goal", "goal_im", "goal_gd"]), seed=rng.randrange(1 << 30),
                        dt=rng.choice([0.005, 0.01, 0.02, 0.04]), n=rng.choice([0, 1, 2, 3, 4, 6, 8]), tol=rng.choice([1e-6, 1e-3, 1e-2, 0.1, 0.5]),
                        reset=rng.choice([1, 2, 3, 20]), auto=rng.random() < 0.6, trunc=rng.random() < 0.7, grow=rng.choice([0, 0, 1, 2]),
                        gstep=rng.choice([1, 1, 2, 128]), h0=rng.random() < 0.3, retB=rng.random() < 0.3, gap=rng.choice([1, 2, 5]), gevery=rng.choice([1, 1, 2]),
                        cb=rng.random() < 0.9, local=rng.random() < 0.85, two=rng.random() < 0.5, ncv=rng.choice([None, None, None, 6]),
                        edit=rng.choice(p09.FE if kind == "F" else p09.UE), ed=rng.random() < 0.2, faults=[f] if f else []))
    return dict(config=cfg, ops=ops, cls=kind + cls, garbage=rng.choice(["nan", "nan", "noise", None]), cpu_limit=200)


class Low(object):
    """Lower bound of the energy."""

    def __init__(self, k):
        w = k.w
        self.k = k
        if k.kind == "F":
            psi = w.psi()
            self.H = p11.sum_ham(w, psi.shape)
            ev = nla.eigvalsh(self.H)
            self.e0, self.nh = ev[0], max(abs(ev[0]), abs(ev[-1]), 1e-3)
            self.gap = ev[1] - ev[0] if len(ev) > 1 else 0
            self.scale = self.nh
            return
        q, hs = w.q, w.sites
        d = {2: 7, 3: 5, 4: 4}[q]
        h = w.h.reshape(q ** hs, q ** hs)
        n = d - hs + 1
        H = 0
        for i in range(n):
            H = H + np.kron(np.kron(np.eye(q ** i), h), np.eye(q ** (n - 1 - i)))
        self.e0 = nla.eigvalsh(H)[0] / n
        self.nh = self.scale = max(abs(nla.eigvalsh(h)))
        kind = w.hcfg["kind"]
        if kind == "ising":
            g = w.hcfg["g"]
            th = (np.arange(4000) + 0.5) * np.pi / 4000
            self.e0 = -np.mean(np.sqrt(1 + g * g - 2 * g * np.cos(th))) * w.hcfg["scale"]
        elif kind == "aklt":
            self.e0 = -2.0 / 3 * w.hcfg["scale"]


def report(k, low, what):
    """The reported energy is that of the state and not below the true one."""
    w, ctx = k.w, k.ctx
    s = w.s
    if k.cond() == 0:
        raise Abandon("ill-conditioned")
    E = w.energy()
    got = complex(s.H_expect if k.kind == "F" else s.h_expect)
    tol = 1e-7 * (1 + low.scale)
    if k.kind == "F":
        n = w.s.l[w.N].ravel()
        nrm = abs(complex(np.asarray(n)[0])) if len(n) else 1.0
        if abs(nrm - 1) > 1e-6:
            E = E * nrm
    ctx.close(got, E, tol, "energy", what)
    ctx.check(got.real >= low.e0 - tol, "below-ground", "%s: energy %.12g, true ground energy at least %.12g" % (what, got.real, low.e0))
    return got.real


def final(k, low, what):
    """Normalised and up to date."""
    w, ctx = k.w, k.ctx
    if k.cond() < CUT:
        raise Abandon("ill-conditioned")
    E = report(k, low, what)
    if k.kind == "F":
        w.check_envs(1e-8)
        ctx.close(nla.norm(w.psi().ravel()), 1.0, 1e-8, "normalised", what)
    else:
        w.check_fixed_points(1e-7)
        lam = w.uni().lam if hasattr(w.uni(), "lam") else None
        if lam is not None:
            ctx.close(lam, 1.0, 1e-7, "normalised", what)
    return E


def execute(plan, ctx):
    k = p11.W(ctx, plan["config"])
    st = dict(fresh=False, canon=False)
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        if op["ed"] and k.kind == "F":
            psi = k.w.psi()
            p01.do_edit(k.w, dict(op, op=op["edit"]), rs, psi, nla.norm(psi.ravel()))
        elif op["ed"] and k.kind == "U":
            p05.edit(k.w, dict(op, op=op["edit"]), rs, st)
        k.settle(op)
        ctx.op(op["op"], (k.kind, op["n"], op["tol"], op["grow"], op["auto"], op["trunc"], op["reset"]))
        low = Low(k)
        globals()[k.kind.lower() + "_" + op["op"]](k, op, rs, low)


# -- infinite states
class Watch(object):
    """Observer of a search."""

    def __init__(self, k, low, small, growing, per=None, eps=None):
        self.k, self.low = k, low
        self.E, self.n, self.log = None, 0, []
        self.small, self.growing = small, growing
        self.eps = eps if eps is not None else 1e-7
        self.start = None
        self.eta = None
        self.cond = 1.0

    def __call__(self, sys, i, **kw):
        k, ctx = self.k, self.k.ctx
        ctx.check(sys is k.w.s, "observer", "the observer got another object")
        self.log.append((int(i), kw))
        E = report(k, self.low, "step %d" % len(self.log))
        D = k.dims()
        c = k.cond()
        if self.E is not None and self.small and not (self.growing and D != self.D):
            # (small accepted steps from well-conditioned states)
            if min(self.cond, c) > 0.01:
                ctx.check(E <= self.E + self.eps * (1 + self.low.scale), "energy-raised",
                          "from %.12g to %.12g in step %d (%s)" % (self.E, E, len(self.log), kw))
                ctx.probe("descent")
        if self.start is None:
            self.start = E
        self.E, self.D, self.cond = E, D, c
        self.eta = abs(complex(sys.eta))


def search(k, op, low, fn, watch):
    """One search, possibly failing for transient faults and then repeated without."""
    ctx, s = k.ctx, k.w.s
    if op["faults"]:
        v, e = ctx.call(op["op"], fn, faults=op["faults"], seed=op["seed"], allow=p09.exc_of(op) if False else (Exception,))
        if e is None:
            return v
        ctx.probe("search-failed")
        if k.cond() == 0 or k.cond() < CUT:
            raise Abandon("ill-conditioned")
        ctx.must("update", lambda: s.update(), seed=op["seed"] + 1)
        if k.cond() < CUT:
            raise Abandon("ill-conditioned")
        watch.__init__(k, low, watch.small, watch.growing)
    return ctx.must(op["op"], fn, seed=op["seed"])


def small(k, low, dtau):
    return dtau * low.nh <= 0.05


def grow(k, op):
    if op["grow"] and k.w.sites == 2:
        return k.dims()[0] + op["grow"]
    return None


def u_im(k, op, rs, low):
    from evoMPS.dynamics import opt_im_time
    ctx, s, n, dt, tol = k.ctx, k.w.s, op["n"], op["dt"] / low.nh, op["tol"]
    to = grow(k, op)
    wt = Watch(k, low, True, to is not None)
    kw = dict(tol=tol, dtau_base=dt, max_itr=n, auto_trunc=op["trunc"], auto_dtau=op["auto"])
    if op["h0"]:
        kw["dtau0"] = dt / 2
    if to:
        kw.update(expand_to_D=to, expand_step=op["gstep"], expand_tol=10)
    if op["cb"]:
        kw["cb_func"] = wt
    v = search(k, op, low, lambda: opt_im_time(s, **kw), wt)
    sys, m, tau, dtau = v
    ctx.check(sys is s, "return", "another object")
    final(k, low, "after imaginary time")
    eta = abs(complex(s.eta))
    ctx.check(1 <= m <= n + 1, "limit", "%d steps reported, limit %d" % (m, n))
    if m < n + 1:
        ctx.check(eta < tol * (1 + 1e-9), "stopped-early", "after %d of %d steps with error %.3g > %.3g" % (m - 1, n, eta, tol))
        if to:
            ctx.check(int(s.D) == to, "stopped-early", "at D = %d of %d" % (s.D, to))
    if op["cb"]:
        ctx.check([i for i, _ in wt.log] == list(range(m)), "observer-calls", "%s, %d steps reported" % ([i for i, _ in wt.log], m))
        taus = [x["tau"] for _, x in wt.log]
        ctx.check(taus[0] == 0 and all(b > a for a, b in zip(taus, taus[1:])), "tau", "%s" % taus)
        ctx.close(taus[-1], tau, 1e-12, "tau", "total")
    if not op["auto"]:
        ctx.close(tau, (m - 1) * kw.get("dtau0", dt), 1e-12, "tau", "fixed steps")
    ctx.simtime += tau


def check_eta(k, op):
    """eta is the size of the gradient at the present state."""
    ctx, s = k.ctx, k.w.s
    e = complex(s.eta)
    if k.cond() < 0.01:
        return
    ctx.must("calc_B", lambda: s.calc_B(), seed=op["seed"])
    ctx.close(e, complex(s.eta), 1e-6 * (1 + abs(e)), "eta", "after the search")


def u_cg(k, op, rs, low):
    from evoMPS.dynamics import opt_conj_grad
    ctx, s, n, dt, tol = k.ctx, k.w.s, op["n"], op["dt"] / low.nh, op["tol"]
    wt = Watch(k, low, True, False)
    kw = dict(tol=tol, h_init=dt, max_itr=n, reset_every=op["reset"])
    if op["h0"]:
        kw["h0_prev"] = dt * 7
    if op["retB"]:
        kw["return_B_grad"] = True
    if op["cb"]:
        kw["cb_func"] = wt
    v = search(k, op, low, lambda: opt_conj_grad(s, **kw), wt)
    sys, m = v[0], v[1]
    ctx.check(sys is s and len(v) == (4 if op["retB"] else 3), "return", "%d values" % len(v))
    final(k, low, "after conjugate gradients")
    ctx.check(1 <= m <= n + 1, "limit", "%d steps reported, limit %d" % (m, n))
    eta = abs(complex(s.eta))
    if m < n + 1:
        ctx.check(eta < tol * (1 + 1e-9), "stopped-early", "after %d of %d steps with error %.3g > %.3g" % (m - 1, n, eta, tol))
    if op["cb"]:
        ctx.check([i for i, _ in wt.log] == list(range(m)), "observer-calls", "%s, %d steps reported" % ([i for i, _ in wt.log], m))
    check_eta(k, op)
    ctx.simtime += m * dt


def u_gd(k, op, rs, low):
    from evoMPS.dynamics import opt_grad_descent
    ctx, s, n, dt, tol = k.ctx, k.w.s, op["n"], op["dt"] / low.nh, op["tol"]
    wt = Watch(k, low, True, False)
    kw = dict(tol=tol, h_init=dt, max_itr=n, im_gap=op["gap"], gap_every=op["gevery"])
    if op["cb"]:
        kw["cb_func"] = wt
    v = search(k, op, low, lambda: opt_grad_descent(s, **kw), wt)
    sys, m = v
    ctx.check(sys is s, "return", "another object")
    if n:
        final(k, low, "after gradient descent")
    ctx.check(0 <= m <= n + 2, "limit", "%d steps reported, limit %d" % (m, n))
    if m < n:
        eta = abs(complex(s.eta))
        ctx.check(eta < tol * (1 + 1e-9), "stopped-early", "after %d of %d steps with error %.3g > %.3g" % (m, n, eta, tol))
    if op["cb"]:
        # every report counts as one
        ctx.check([i for i, _ in wt.log] == list(range(m)), "observer-calls", "%s, %d steps reported" % ([i for i, _ in wt.log], m))


def u_find(k, op, rs, low):
    from evoMPS.dynamics import find_ground
    ctx, s, n, dt = k.ctx, k.w.s, min(op["n"], 6), op["dt"] / low.nh
    to = grow(k, op)
    wt = Watch(k, low, True, to is not None)
    kw = dict(tol=op["tol"] * 0.1, h_init=dt, max_itr=n, CG_start_tol=op["tol"])
    if to:
        kw.update(expand_to_D=to, expand_step=op["gstep"], expand_tol=op["tol"])
    if op["cb"]:
        kw["cb_func"] = wt
    D0 = k.dims()[0]
    v = search(k, op, low, lambda: find_ground(s, **kw), wt)
    ctx.check(v is s, "return", "another object")
    final(k, low, "after find_ground")
    if op["cb"]:
        ctx.check([i for i, _ in wt.log] == list(range(len(wt.log))), "observer-calls", "%s" % [i for i, _ in wt.log])
    ctx.check(k.dims()[0] <= (to or D0), "bond-dimension", "%d" % k.dims()[0])
    check_eta(k, op)


def u_cg2(k, op, rs, low):
    from evoMPS.dynamics import opt_conj_grad2
    ctx, s = k.ctx, k.w.s
    if k.w.L > 1 or k.dims()[0] > 2:
        return
    E0 = report(k, low, "start")
    search(k, op, low, lambda: opt_conj_grad2(s, tol=max(op["tol"], 1e-3)), Watch(k, low, False, False))
    E = final(k, low, "after opt_conj_grad2")
    ctx.check(E <= E0 + 1e-7 * (1 + low.scale), "energy-raised", "from %.12g to %.12g" % (E0, E))


def goal(k, op, low, fn, tol, what):
    ctx, s = k.ctx, k.w.s
    wt = Watch(k, low, False, False)
    search(k, op, low, lambda: fn(wt), wt)
    E = final(k, low, what)
    ctx.must("calc_B", lambda: s.calc_B(), seed=op["seed"])
    eta = abs(complex(s.eta))
    ctx.check(eta < tol * 1.01, "no-progress", "%s: error %.3g after %d steps, %.3g requested" % (what, eta, len(wt.log), tol))
    ctx.check(E <= wt.start + 1e-7 * (1 + low.scale), "energy-raised", "from %.12g to %.12g over all" % (wt.start, E))
    ctx.probe("goal")
    if k.w.hcfg["kind"] == "ising" and k.dims()[0] >= 2:
        ctx.check(E - low.e0 <= 3e-3 * low.scale, "not-ground", "%s: energy %.8g, ground energy %.8g" % (what, E, low.e0))
    if k.w.hcfg["kind"] == "aklt":
        ctx.check(E - low.e0 <= 1e-4, "not-ground", "%s: energy %.8g, ground energy %.8g" % (what, E, low.e0))


def u_goal(k, op, rs, low):
    from evoMPS.dynamics import find_ground
    s = k.w.s
    goal(k, op, low, lambda wt: find_ground(s, tol=1e-4, h_init=0.04 / low.nh * 2, max_itr=400, CG_start_tol=0.05, cb_func=wt), 1e-4, "find_ground")


def u_goal_im(k, op, rs, low):
    from evoMPS.dynamics import opt_im_time
    s = k.w.s
    goal(k, op, low, lambda wt: opt_im_time(s, tol=5e-3, dtau_base=0.06 / low.nh, max_itr=800, auto_dtau=False, cb_func=wt), 5e-3, "opt_im_time")


def u_goal_gd(k, op, rs, low):
    from evoMPS.dynamics import opt_grad_descent
    s = k.w.s
    goal(k, op, low, lambda wt: opt_grad_descent(s, tol=1e-3, h_init=0.05 / low.nh, max_itr=500, cb_func=wt), 1e-3, "opt_grad_descent")


# -- finite chains
def f_step(k, low, E, what, eps=1e-9):
    E1 = report(k, low, what)
    if E is not None:
        k.ctx.check(E1 <= E + eps * (1 + low.scale), "energy-raised", "from %.12g to %.12g: %s" % (E, E1, what))
        k.ctx.probe("descent")
    return E1


def f_im(k, op, rs, low):
    """Imaginary-time steps, with bond growth or not."""
    ctx, s = k.ctx, k.w.s
    dt = op["dt"] / low.nh
    E = report(k, low, "start")
    for i in range(op["n"]):
        c = k.cond()
        if c < CUT:
            raise Abandon("ill-conditioned")
        if op["two"]:
            ctx.must("take_step_RK4", lambda: s.take_step_RK4(dt), seed=op["seed"] + i)
        else:
            ctx.must("take_step", lambda: s.take_step(dt), seed=op["seed"] + i)
        ctx.must("update", lambda: s.update(), seed=op["seed"] + i)
        E = f_step(k, low, E if c > 0.02 and op["dt"] <= 0.5 * c else None, "imaginary-time step %d of %g" % (i, dt))
        ctx.simtime += dt
    final(k, low, "after imaginary time")


def f_grow(k, op, rs, low):
    ctx, s = k.ctx, k.w.s
    dt = op["dt"] / low.nh
    if k.w.sites == 3 and len(set(k.w.q[1:])) > 1:
        return
    E = report(k, low, "start")
    c = k.cond()
    ctx.must("take_step", lambda: s.take_step(dt, dynexp=True, D_max=max(k.dims()) + 1, dD_max=1, sv_tol=1e-6), seed=op["seed"])
    ctx.must("update", lambda: s.update(), seed=op["seed"])
    f_step(k, low, E if c > 0.02 and op["dt"] <= 0.5 * c else None, "growing step")
    if k.cond() < CUT:
        raise Abandon("ill-conditioned")


def f_cg(k, op, rs, low):
    """The conjugate-gradient loop."""
    ctx, s = k.ctx, k.w.s
    h = op["dt"] / low.nh
    n = max(1, op["n"])
    E = report(k, low, "start")
    B, eta = None, None
    f = op["faults"]
    i = 0
    while i < n:
        reset = i % op["reset"] == 0 or B is None
        if k.cond() < CUT:
            raise Abandon("ill-conditioned")
        fn = lambda: s.calc_B_CG(B, eta, h, reset=reset)
        if f and i == 1:
            v, e = ctx.call("calc_B_CG", fn, faults=f, seed=op["seed"] + i, allow=(Exception,))
            f = []
            if e is not None:
                ctx.probe("search-failed")
                ctx.must("update", lambda: s.update(), seed=op["seed"] + i)
                B = None
                continue
        else:
            v = ctx.must("calc_B_CG", fn, seed=op["seed"] + i)
        B, _, eta, tau = v
        if nla.norm(np.asarray(eta)) < 1e-7:
            break
        ctx.check(tau >= 0, "line-search", "negative step %g" % tau)
        c = k.cond()
        ctx.must("take_step", lambda: s.take_step(tau, B=B), seed=op["seed"] + i)
        # (conjugate directions are only comparable without a change of gauge)
        ctx.must("update", lambda: s.update(restore_CF=(i + 1) % op["reset"] == 0), seed=op["seed"] + i)
        cond = k.cond()
        E = f_step(k, low, E if min(c, cond) > 0.02 else None, "conjugate-gradient step %d of %g" % (i, tau), eps=1e-7)
        ctx.simtime += abs(tau)
        i += 1
    ctx.must("update", lambda: s.update(), seed=op["seed"])
    final(k, low, "after conjugate gradients")


def f_sweep(k, op, rs, low):
    """One-site sweeps."""
    ctx, s, w = k.ctx, k.w.s, k.w
    if s.canonical_form != "right":       # (documented)
        return
    n = 1 + op["n"] // 2
    E = report(k, low, "start")
    f = op["faults"]
    for i in range(n):
        fn = lambda: s.vari_opt_ss_sweep(ncv=None)
        if f and i == 0:
            v, e = ctx.call("vari_opt_ss_sweep", fn, faults=f, seed=op["seed"] + i, allow=(Exception,))
            if e is not None:
                ctx.probe("search-failed")
                ctx.must("update", lambda: s.update(), seed=op["seed"])
                E = None
                if k.cond() < 1e-8:
                    raise Abandon("ill-conditioned")
                continue
        else:
            ctx.must("vari_opt_ss_sweep", fn, seed=op["seed"] + i)
        ctx.must("update", lambda: s.update(), seed=op["seed"] + i)
        E = f_step(k, low, E, "sweep %d" % i, eps=1e-8)
    # local optimum: further sweeps change nothing much
    w.check_envs(1e-7)
    ctx.close(nla.norm(w.psi().ravel()), 1.0, 1e-7, "normalised", "after sweeps")
    if p11.full(w) == k.dims() and E is not None and low.gap > 0.05 * low.nh:
        for i in range(12):
            if E - low.e0 < 1e-7 * (1 + low.scale):
                break
            ctx.must("vari_opt_ss_sweep", lambda: s.vari_opt_ss_sweep(), seed=op["seed"] + i)
            ctx.must("update", lambda: s.update(), seed=op["seed"] + i)
            E = f_step(k, low, E, "further sweep %d" % i, eps=1e-8)
        ctx.check(E - low.e0 < 1e-6 * (1 + low.scale), "no-progress", "energy %.10g after %d sweeps at full bond dimension, ground energy %.10g" % (E, n + 12, low.e0))
        ctx.probe("goal")


def f_dmrg(k, op, rs, low):
    """evolve_split as an optimiser, one or two sites at a time."""
    from evoMPS.split_step import evolve_split
    ctx, w, s = k.ctx, k.w, k.w.s
    if s.canonical_form != "right":
        return
    ham = [None] + [np.zeros(tuple(w.q[i:i + w.sites]) * 2, dtype=complex) if t is None else t for i, t in enumerate(w.hterms)]
    two = op["two"]
    E0 = report(k, low, "start")
    Es = []

    def cb(sys, i, **info):
        ctx.check(sys is s, "observer", "another object")
        Es.append(w.energy())
    n = max(1, op["n"] // 2)
    if two:
        n = max(n, 4)
    kw = dict(DMRG=True, print_progress=False)
    if two:
        kw.update(two_site=True, D_max=64, min_schmidt=1e-12)
    ctx.must("evolve_split", lambda: evolve_split(s, ham, w.sites, 1.0, n, cb_func=cb, **kw), seed=op["seed"])
    ctx.must("update", lambda: s.update(), seed=op["seed"])
    E = report(k, low, "after %d sweeps" % n)
    Es = [E0] + Es + [E]
    for a, b in zip(Es, Es[1:]):
        ctx.check(b <= a + 1e-8 * (1 + low.scale), "energy-raised", "energies %s over sweeps" % Es)
        ctx.check(b >= low.e0 - 1e-8 * (1 + low.scale), "below-ground", "%s, ground energy %.12g" % (Es, low.e0))
    ctx.close(nla.norm(w.psi().ravel()), 1.0, 1e-7, "normalised", "after sweeps")
    if two and low.gap > 0.05 * low.nh:
        for i in range(4):
            if E - low.e0 < 1e-7 * (1 + low.scale):
                break
            ctx.must("evolve_split", lambda: evolve_split(s, ham, w.sites, 1.0, 4, **kw), seed=op["seed"] + i)
            ctx.must("update", lambda: s.update(), seed=op["seed"])
            E = f_step(k, low, E, "further sweeps", eps=1e-8)
        ctx.check(E - low.e0 < 1e-6 * (1 + low.scale), "no-progress", "energy %.10g after many two-site sweeps, ground energy %.10g" % (E, low.e0))
        ctx.probe("goal")


def f_split(k, op, rs, low):
    """Imaginary-time split steps descend."""
    ctx, w, s = k.ctx, k.w, k.w.s
    dt = op["dt"] / low.nh
    if s.canonical_form != "right":
        return
    E = report(k, low, "start")
    for i in range(max(1, op["n"] // 2)):
        c = k.cond()
        if c < CUT:
            raise Abandon("ill-conditioned")
        ctx.must("take_step_split", lambda: F.take_step_split(ctx, s, dt), seed=op["seed"] + i)
        ctx.must("update", lambda: s.update(), seed=op["seed"] + i)
        E = f_step(k, low, E if c > 0.02 else None, "split step of %g" % dt, eps=1e-8)
        ctx.simtime += dt
    final(k, low, "after split steps")
