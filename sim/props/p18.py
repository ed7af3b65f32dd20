"""P18: stochastic steps of open finite chains, and the model around them."""
import copy

import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from .. import seams
from .. import twin as T
from ..core import Abandon
from . import p01, p09

EDITS = ["scramble", "apply1s", "tensors", "ham", "linds", "swapform"]


def shrink(plan):
    out = F.shrink_cfg(plan)
    c = plan["config"]
    for i in range(len(c["linds"])):
        p = copy.deepcopy(plan)
        del p["config"]["linds"][i]
        out.append(p)
    return out


def gen_linds(rng):
    return [dict(seed=rng.randrange(1 << 30), pos=rng.random(), kind=rng.choice(["rand", "rand", "local", "local", "herm", "real", "term"]),
                 scale=rng.choice([0.2, 0.5, 1.0])) for _ in range(rng.choice([1, 1, 2, 2, 3]))]


def gen(rng, tier, idx):
    if idx % 8 == 3:
        cfg = F.gen_cfg(rng, Nmax=3, Dmax=3, dmax=27, kinds=("tensors",))
        ops = [dict(op="noise", seed=rng.randrange(1 << 30)), dict(op="average", seed=rng.randrange(1 << 30))]
    else:
        cfg = F.gen_cfg(rng, Nmax=6, Dmax=4, dmax=130, kinds=("tensors", "tensors", "random"))
        ops = []
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            op = dict(op=rng.choice(EDITS) if r < 0.3 else rng.choice(["step", "step", "step", "dynexp", "same", "fail", "fail"]), seed=rng.randrange(1 << 30))
            if op["op"] == "fail":
                op.update(how=rng.choice(["line", "line", "fault"]), frac=rng.random(), exc=rng.choice(["interrupt", "memory", "linalg"]),
                          fault=dict(site=rng.choice(["svd", "eigh", "cholesky", "qr", "inv"]), kind=rng.choice(["fail", "interrupt"]), nth=rng.randint(0, 4), count=1, frac=0.5))
            op["opts"] = rng.choice([{}, {}, {}, dict(save_memory=True), dict(calc_Y_2s=True)])
            op["update"] = rng.choice([None, None, None, dict(restore_CF=False)])
            ops.append(op)
    cfg["cls"] = "diss"
    cfg["ham"]["scale"] = rng.choice([1.0, 0.5, 0.0] if rng.random() < 0.3 else [1.0, 0.5])
    cfg["linds"] = gen_linds(rng)
    return dict(config=cfg, ops=ops, cls="N%d/%s/%s%s/h%d/L%d" % (cfg["N"], "cmplx" if len(set(cfg["q"])) > 1 else "q%d" % cfg["q"][0], cfg["cf"][0], cfg["gf"][0],
                                                                 cfg["ham"]["sites"], len(cfg["linds"])),
                garbage=rng.choice(["nan", "noise", "huge", None]))


# ------------------------------------------------------------------------------------------- reference
def term(psi, n, x, k):
    """Operator x on sites n, ... of a dense state."""
    return M.ham_apply(psi, [(n - 1, k, x)])


class Ref(object):
    """The drift and the noise directions at a state (tensors A, any gauge, norm one)."""

    def __init__(self, w, A, linds):
        self.w, self.A = w, A
        self.psi = psi = M.vec_from_tensors(A)
        self.n2 = float(np.vdot(psi, psi).real)
        k = w.sites
        self.k = k
        self.tan = M.TangentSpace(A)
        G = -1j * M.ham_apply(psi, w.terms)
        self.ex, self.raw = [], []
        for n, L in linds:
            d = int(np.prod(L.shape[:k]))
            m = np.asarray(L, dtype=complex).reshape(d, d)
            Lp = self.app(psi, n, m, L.shape)
            G = G - 0.5 * self.app(Lp, n, m.conj().T, L.shape)
            self.ex.append(M.inner(psi, Lp) / self.n2)
            self.raw.append(Lp)
        self.G = G
        self.drift = self.P(G)
        self.dirs = [self.P(x) for x in self.raw]

    def app(self, psi, n, m, shape):
        return term(psi, n, m.reshape(shape), self.k)

    def perp(self, v):
        return v - self.psi * (M.inner(self.psi, v) / self.n2)

    def P(self, v):
        return self.perp(self.tan.project(v))

    def full(self, ws, dt):
        """The generator of the step for given coefficients."""
        return dt * self.G + sum((x * y for x, y in zip(ws, self.raw)), np.zeros_like(self.psi))

    def fit(self, dA, dt):
        """The coefficients of the noise directions in the change dA of the tensors; the residual."""
        A = self.A
        v = np.zeros_like(self.psi)
        for n in range(len(A)):
            v = v + M.vec_from_tensors(A[:n] + [dA[n]] + A[n + 1:])
        y = (v - dt * self.drift).ravel()
        if not self.dirs:
            return np.zeros(0), nla.norm(y), 0.0, v
        X = np.array([d.ravel() for d in self.dirs]).T
        c, _, _, sv = nla.lstsq(X, y, rcond=1e-10)
        return c, nla.norm(X @ c - y), (sv[-1] / max(sv[0], 1e-300)) if len(sv) and nla.norm(X) > 1e-8 else 0.0, v


def linds_of(s):
    return [(n, np.array(L)) for n, L in s.linds]


def bits_linds(a, b):
    return len(a) == len(b) and all(n == m and x.dtype == y.dtype and x.tobytes() == y.tobytes() for (n, x), (m, y) in zip(a, b))


def ready(w):
    psi = w.psi()
    n0 = nla.norm(psi.ravel())
    return 1e-6 < n0 < 1e8 and w.min_schmidt() > 0.02


# ------------------------------------------------------------------------------------------- the run
def execute(plan, ctx):
    w = F.FW(ctx, plan["config"])
    s = w.s
    rs = np.random.RandomState(plan["run_seed"] % 2 ** 32)
    settle(w, rs)
    ctx.must("update", lambda: s.update(), seed=1)
    for op in plan["ops"]:
        if not ready(w):
            raise Abandon("ill-conditioned")
        rs = np.random.RandomState(op["seed"])
        k = op["op"]
        ctx.op(k, (str(sorted(op.get("opts") or {})), s.canonical_form, s.gauge_fixing, op.get("how", ""), str(op.get("update"))))
        if k in EDITS:
            edit(w, op, rs)
            up(w, op)
        else:
            globals()["do_" + k](w, op, rs)
        ctx.log("psi", w.psi())


def up(w, op):
    """Update; where forms are not restored the state must still be normalised for what follows."""
    kw = op.get("update") or {}
    w.ctx.must("update", lambda: w.s.update(**kw), seed=op["seed"] + 1)


def settle(w, rs):
    for _ in range(40):
        if ready(w):
            return
        s = w.s
        D = [1] + [min(int(d), F.maxD(w.q, n), F.maxD(w.q[::-1], w.N - n)) for n, d in list(enumerate(s.D))[1:-1]] + [1]
        T_ = F.rand_tensors(rs, w.q, D)
        w.ctx.must("set_tensors", lambda: s.set_state_from_tensors([None] + T_, do_update=False))
    raise Abandon("ill-conditioned")


def edit(w, op, rs):
    ctx, s, k = w.ctx, w.s, op["op"]
    if k == "ham":
        h = dict(w.hcfg, seed=op["seed"])
        w.set_model(h)
        s.ham = w.make_ham()
    elif k == "linds":
        import random
        s.linds = w.make_linds(gen_linds(random.Random(op["seed"])), s.ham)
    elif k == "scramble":
        w.gauge_scramble(rs, cond=2.0)
    elif k == "apply1s":
        n = rs.randint(1, w.N + 1)
        o = np.eye(w.q[n - 1]) + 0.3 * F.rmat(rs, w.q[n - 1])
        ctx.must("apply_op_1s", lambda: s.apply_op_1s(o, n, do_update=False), seed=3)
    elif k == "tensors":
        D = [1] + [min(int(d), F.maxD(w.q, n), F.maxD(w.q[::-1], w.N - n)) for n, d in list(enumerate(s.D))[1:-1]] + [1]
        ctx.must("set_tensors", lambda: s.set_state_from_tensors([None] + F.rand_tensors(rs, w.q, D), do_update=False))
    elif k == "swapform":
        f = "left" if s.canonical_form == "right" else "right"
        s.canonical_form = f
        if op["seed"] % 2:
            s.gauge_fixing = f
    if not ready(w):
        settle(w, rs)


def guard(w):
    """What a step must not change."""
    s = w.s
    return T.ham_copy(s.ham), linds_of(s), s.ham_sites, s.gauge_fixing, s.canonical_form


def check_guard(w, g, what):
    s, ctx = w.s, w.ctx
    ctx.check(T.ham_same(g[0], s.ham), "hamiltonian-changed", "the model after %s" % what)
    ctx.check(bits_linds(g[1], linds_of(s)), "jump-operators-changed", what)
    ctx.check((s.ham_sites, s.gauge_fixing, s.canonical_form) == g[2:], "parameters-changed", what)


def sampled(w, o, dt, seed, opts):
    """One step of the object o: change of the tensors."""
    A0 = [np.array(o.A[n], dtype=complex) for n in range(1, w.N + 1)]
    w.ctx.must("take_step_dissipative", lambda: o.take_step_dissipative(dt, **opts), seed=seed)
    A1 = [np.array(o.A[n], dtype=complex) for n in range(1, w.N + 1)]
    return A0, A1


def do_step(w, op, rs, dyn=False):
    ctx, s = w.ctx, w.s
    dt = float(rs.choice([1e-4, 1e-3, 0.01]))
    opts = dict(op["opts"] or {})
    g = guard(w)
    A = w.A()
    nrm = nla.norm(M.vec_from_tensors(A).ravel())
    ctx.close(nrm, 1.0, 1e-8, "normalisation", "norm after update")
    ref = Ref(w, A, linds_of(s))
    cond = max(1e-3, w.min_schmidt())
    scale = max(1.0, nla.norm(ref.drift.ravel()), max([nla.norm(x.ravel()) for x in ref.raw] + [0]))
    # the same stream of noise with several step sizes
    fits = []
    for m in (0.25, 4.0, 1.0):
        o = s if m == 1.0 else copy.deepcopy(s)
        A0, A1 = sampled(w, o, dt * m, op["seed"] + 3, opts)
        dA = [y - x for x, y in zip(A0, A1)]
        c, res, ratio, v = ref.fit(dA, dt * m)
        size = max(nla.norm(v.ravel()), dt * m * scale)
        ctx.check(res <= 1e-8 * size / cond, "step", lambda: "step of %g (%s) off the tangent drift and noise by %.3g of %.3g" % (dt * m, sorted(opts), res, size))
        # (what the step has along the state itself)
        ctx.check(abs(M.inner(ref.psi, v)) <= 1e-8 * size / cond, "step", "the step changes the norm to first order")
        fits.append((dt * m, c))
    check_guard(w, g, "a step")
    ctx.simtime += dt
    if ratio > 0.02 and len(ref.dirs):
        (t1, c1), (t2, c2), (t3, c3) = fits
        # c = a dt + z sqrt(dt)
        z = (c1 / t1 - c2 / t2) / (1 / np.sqrt(t1) - 1 / np.sqrt(t2))
        a = c1 / t1 - z / np.sqrt(t1)
        want = np.conj(ref.ex)
        err = 1e-7 / ratio / cond * scale / np.sqrt(t1)
        ctx.close(a, want, max(1e-7, err), "jump-drift", "drift coefficients of the jump operators, conj <L>")
        ctx.check(nla.norm(c3 - a * t3 - z * np.sqrt(t3)) <= (1e-8 + 1e-8 * nla.norm(c3)) / ratio / cond, "noise-scaling", "noise does not scale with the root of the step")
        ctx.check(np.all(abs(z) < 8), "noise", lambda: "noise values %s" % z)
        ctx.probe("coefficients")
    ctx.probe("step" + "".join(sorted(opts)) + "-" + s.gauge_fixing)
    up(w, op)
    after(w, g)


def after(w, g):
    """The object is usable, with the model it had."""
    ctx, s = w.ctx, w.s
    if not ready(w):
        raise Abandon("ill-conditioned")
    w.check_D()
    ctx.close(nla.norm(w.psi().ravel()), 1.0, 1e-8, "normalisation", "norm after update")
    o = copy.deepcopy(s)
    ctx.must("energy", lambda: (o.calc_C(), o.calc_K() if o.gauge_fixing == "right" else o.calc_K_l()), seed=1)
    ctx.close(complex(o.H_expect).real, w.energy(), 1e-7, "energy", "energy of the model after a step")
    n = 1 + int(abs(complex(s.A[1].ravel()[0])) * 1e6) % w.N
    op = F.herm(np.random.RandomState(5), w.q[n - 1])
    psi = w.psi()
    ctx.close(ctx.must("expect_1s", lambda: s.expect_1s(op, n)), M.inner(psi, M.apply_op(psi, op, n - 1, 1)), 1e-8, "observable", "expectation value after a step")


def do_dynexp(w, op, rs):
    ctx, s = w.ctx, w.s
    if w.sites == 3 or max(s.D) > 5:
        return do_step(w, op, rs)
    g = guard(w)
    A = w.A()
    ref = Ref(w, A, linds_of(s))
    cond = max(1e-3, w.min_schmidt())
    dt = float(rs.choice([1e-4, 1e-3, 0.01]))
    D0 = [int(d) for d in s.D[:w.N + 1]]
    Dm = int(max(D0) + rs.randint(0, 4))
    dD = int(rs.randint(1, 5))
    try:
        A0, A1 = sampled(w, s, dt, op["seed"] + 3, dict(dynexp=True, D_max=Dm, dD_max=dD, sv_tol=1e-12))
    finally:
        check_guard(w, g, "an expanding step")
    D1 = [A1[n].shape[1] for n in range(w.N)] + [1]
    ctx.check(all(a <= b <= a + dD and b <= max(Dm, a) for a, b in zip(D0, D1)), "bounds", "bonds %s to %s, at most %d more, %d" % (D0, D1, dD, Dm))
    dA = [A1[n][:, :D0[n], :D0[n + 1]] - A[n] for n in range(w.N)]
    c, res, ratio, v = ref.fit(dA, dt)
    size = max(nla.norm(v.ravel()), dt)
    ctx.check(res <= 1e-8 * size / cond, "step", lambda: "expanding step off by %.3g of %.3g" % (res, size))
    if any(b > a for a, b in zip(D0, D1)) and ratio > 0.02:
        # the two-site part, as far as the bonds hold it
        X = [None] * w.N
        two = np.zeros_like(ref.psi)
        for n in range(w.N - 1):
            if D1[n + 1] > D0[n + 1]:
                x = A1[n][:, :D0[n], D0[n + 1]:]
                y = A1[n + 1][:, D0[n + 1]:, :D0[n + 2]]
                two = two + M.vec_from_tensors(A[:n] + [x, y] + A[n + 2:])
        gen = ref.full(c, dt)
        want = ref.perp(ref.tan.project2(gen) - ref.tan.project(gen))
        e0, e1 = nla.norm(want.ravel()), nla.norm((want - two).ravel())
        ctx.check(e1 <= e0 * (1 + 1e-7) + 1e-10, "expansion", "the new bonds lead away from the flow: %.3g, without %.3g" % (e1, e0))
        ctx.check(abs(np.vdot(two, want - two)) <= 1e-7 / cond ** 2 * max(e0 ** 2, 1e-14), "expansion", "the new part is not the projection of the flow")
        full = all(b >= min(a + min(rank(w, n, D0), dD), Dm) for n, (a, b) in list(enumerate(zip(D0, D1)))[1:-1])
        if all(D1[n] - D0[n] >= rank(w, n, D0) for n in range(1, w.N)):
            ctx.check(e1 <= 1e-6 / cond * max(e0, 1e-10), "expansion", "full expansion misses %.3g of %.3g" % (e1, e0))
            ctx.probe("expansion-full")
        ctx.probe("expansion")
    ctx.simtime += dt
    kw = dict(auto_truncate=True) if op["seed"] % 3 == 0 else {}
    psi = w.psi()
    ctx.must("update", lambda: s.update(**kw), seed=4)
    w.same_state(psi, 1e-6, "update-changes-state", norm=1.0, what="update")
    if w.min_schmidt() < 0.02:
        raise Abandon("ill-conditioned")


def rank(w, n, D):
    """How much bond n can gain from two-site contributions."""
    return min(D[n - 1] * w.q[n - 1], w.q[n] * D[n + 1]) - D[n]


def do_same(w, op, rs):
    """The same random stream gives the same trajectory, another one another."""
    ctx, s = w.ctx, w.s
    dt = 0.003
    a, b, c = [copy.deepcopy(s) for _ in range(3)]
    b.ham = T.ham_copy(s.ham)
    out = []
    for o, sd in ((a, 5), (b, 5), (c, 6)):
        def run():
            for _ in range(3):
                o.take_step_dissipative(dt, **(op["opts"] or {}))
                o.update()
        ctx.must("trajectory", run, seed=op["seed"] + sd)
        out.append(o)
    ctx.check(T.same_bits(T.tensors(a), T.tensors(b)), "not-reproducible", "the same stream gives another trajectory")
    if w.s.linds and max(nla.norm(d.ravel()) for d in Ref(w, w.A(), linds_of(s)).dirs) > 0.1:
        ctx.check(not T.same_bits(T.tensors(a), T.tensors(c)), "no-noise", "other streams give the same trajectory")
    ctx.probe("reproduced")
    w.s = a
    ctx.simtime += 3 * dt


def do_fail(w, op, rs):
    """A step stopped halfway: the model is as before, and the step can be done again."""
    ctx, s = w.ctx, w.s
    dt = 0.003
    g = guard(w)
    A0 = T.tensors(s)
    tw = copy.deepcopy(s)
    opts = dict(op["opts"] or {})
    step = lambda o: o.take_step_dissipative(dt, **opts)
    if op["how"] == "line":
        tx = copy.deepcopy(s)
        _, _, tr = p09.traced(ctx, "step", lambda: step(tx), op, None)
        stop = 1 + int(op["frac"] * tr.n)
        v, e, tr = p09.traced(ctx, "step", lambda: step(s), op, stop)
        what = "a step stopped at line %d %s by %s" % (stop, tr.where, op["exc"])
    else:
        v, e = ctx.call("step", lambda: step(s), faults=[op["fault"]], seed=op["seed"], ret_exc=True)
        what = "a step with %s" % op["fault"]
    ctx.probe("failed-" + op["how"] if e is not None else "completed")
    check_guard(w, g, what)
    if e is None and op["how"] == "fault":
        pass
    ctx.must("restore", lambda: s.set_state_from_tensors([None if a is None else a.copy() for a in A0]), seed=2)
    ctx.must("update", lambda: tw.update(), seed=2)
    for o in (s, tw):
        ctx.must("again", lambda: (step(o), o.update()), seed=op["seed"] + 8)
    w.same_state(M.vec_from_tensors([np.array(tw.A[n], dtype=complex) for n in range(1, w.N + 1)]), 1e-6, "retry-differs", what="a step after " + what)
    check_guard(w, g, "a further step")
    after(w, g)


def moments(w, op, n):
    """Fitted noise values (in units of the root of the step) of n steps from the same state."""
    ctx, s = w.ctx, w.s
    dt = 1e-3
    ref = Ref(w, w.A(), linds_of(s))
    out, vs = [], []
    np.random.seed(op["seed"] % 2 ** 32)
    A0 = w.A()
    for i in range(n):
        o = s
        ctx.call("step", lambda: o.take_step_dissipative(dt))
        dA = [np.array(o.A[m + 1], dtype=complex) - A0[m] for m in range(w.N)]
        psi1 = w.psi()
        c, res, ratio, v = ref.fit(dA, dt)
        if ratio < 0.02:
            return None
        out.append((c - dt * np.conj(ref.ex)) / np.sqrt(dt))
        vs.append(psi1)
        for m in range(w.N):
            o.A[m + 1] = A0[m].copy()
    return ref, np.array(out), vs, dt


def do_noise(w, op, rs):
    """The noise is a complex Wiener process: independent, centred, isotropic, of the step's size."""
    ctx = w.ctx
    n = 200
    m = moments(w, op, n)
    if m is None:
        ctx.probe("degenerate")
        return
    ref, z, vs, dt = m
    six = 6.0 / np.sqrt(n)
    ctx.log("z", z[0])
    ctx.check(np.all(abs(z.mean(axis=0)) < six), "noise-mean", lambda: "mean noise %s" % z.mean(axis=0))
    ctx.check(np.all(abs((abs(z) ** 2).mean(axis=0) - 1) < six), "noise-variance", lambda: "variance of the noise, over that of a Wiener process: %s" % (abs(z) ** 2).mean(axis=0))
    ctx.check(np.all(abs((z ** 2).mean(axis=0)) < six * 1.5), "noise-isotropy", lambda: "mean square of the noise %s" % (z ** 2).mean(axis=0))
    for i in range(z.shape[1]):
        for j in range(i):
            ctx.check(abs((z[:, i].conj() * z[:, j]).mean()) < six * 1.2 and abs((z[:, i] * z[:, j]).mean()) < six * 1.2, "noise-correlated", "noise of jump operators %d and %d" % (j, i))
    for x in (z[:-1].conj() * z[1:], z[:-1] * z[1:]):
        ctx.check(np.all(abs(x.mean(axis=0)) < six * 1.2), "noise-correlated", "noise of successive steps")
    ctx.probe("moments")


def do_average(w, op, rs):
    """The average over the noise decays as the master equation says (bonds at their largest)."""
    ctx, s = w.ctx, w.s
    if any(int(s.D[n]) < min(F.maxD(w.q, n), F.maxD(w.q[::-1], w.N - n)) for n in range(1, w.N)):
        D = [1] + [min(F.maxD(w.q, n), F.maxD(w.q[::-1], w.N - n)) for n in range(1, w.N)] + [1]
        ctx.must("set", lambda: s.set_state_from_tensors([None] + F.rand_tensors(rs, w.q, D), do_update=False))
        ctx.must("update", lambda: s.update())
        if w.min_schmidt() < 0.02:
            return
    n = 150
    m = moments(w, dict(op, seed=op["seed"] + 1), n)
    if m is None:
        ctx.probe("degenerate")
        return
    ref, z, vs, dt = m
    psi = ref.psi.ravel()
    rho = np.outer(psi, psi.conj())
    d = len(psi)
    dims = w.q
    H = sum((M.ham_dense([(a, k, t)], dims) for a, k, t in w.terms), np.zeros((d, d), dtype=complex))
    Ls = [M.ham_dense([(a - 1, w.sites, L)], dims) for a, L in linds_of(s)]
    lind = -1j * (H @ rho - rho @ H)
    for L in Ls:
        LL = L.conj().T @ L
        lind = lind + L @ rho @ L.conj().T - (LL @ rho + rho @ LL) / 2
    acc = []
    for c, v in zip(z, vs):
        v = v.ravel()
        lin = sum((np.sqrt(dt) * x * y.ravel() for x, y in zip(c, ref.dirs)), np.zeros(d, dtype=complex))
        r = np.outer(v, v.conj()) / np.vdot(v, v).real - rho - np.outer(lin, psi.conj()) - np.outer(psi, lin.conj())
        acc.append(r / dt)
    acc = np.array(acc)
    mean = acc.mean(axis=0)
    spread = np.sqrt(((abs(acc - mean) ** 2).sum(axis=(1, 2))).mean() / n)
    err = nla.norm(mean - lind)
    big = max(nla.norm(L, 2) for L in Ls + [H]) + 1
    ctx.check(err <= 5 * spread + 40 * np.sqrt(dt) * dt ** 0.5 * big ** 4, "master-equation", lambda: "mean change of the density matrix off by %.3g, statistical error %.3g, size %.3g" % (err, spread, nla.norm(lind)))
    ctx.probe("average")
