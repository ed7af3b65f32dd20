"""P07: infinite chains - the tangent vector is the energy gradient, steps follow the projected flow, expansion obeys its limits."""
import numpy as np
import numpy.linalg as nla

from .. import model as M
from .. import uniform as U
from ..core import Abandon
from ..finite import unitary
from . import p05

shrink = U.shrink_ucfg
MIN_SCHMIDT = 0.03
GAP = 0.9


def gen(rng, tier, idx):
    kinds = ("random", "tensors", "tensors", "product")
    cfg = U.gen_ucfg(rng, tdvp=True, Dmax=rng.choice([3, 4, 5]), kinds=kinds)
    ops = [dict(op="prepare", seed=rng.randrange(1 << 30), how="cf")]
    for _ in range(rng.randint(1, 4)):
        u = rng.random()
        sd = rng.randrange(1 << 30)
        if u < 0.2:
            ops.append(dict(op=rng.choice(["apply1s", "scramble", "noise", "randomize", "opts", "tensors", "form"]), seed=sd))
        elif u < 0.4:
            ops.append(dict(op="quench", seed=sd, ham=U.gen_ham(rng, rng.choice([2, 2, 3])), via_set=rng.random() < 0.5))
        elif u < 0.6:
            ops.append(dict(op="evolve", seed=sd, how=rng.choice(["euler", "rk4", "dynexp"]), n=rng.randint(1, 3), imag=rng.random() < 0.5))
        else:
            ops.append(dict(op=rng.choice(["tangent", "tangent", "order", "order", "dynexp", "dynexp", "double", "args"]), seed=sd,
                            how=rng.choice(["cf", "cf", "nocf"]), step=rng.choice(["euler", "rk4"]), time=rng.choice(["real", "imag", "imag", "complex"])))
    ops.append(dict(op="tangent", seed=rng.randrange(1 << 30), how="cf"))
    return dict(config=cfg, ops=ops, cls=U.ucfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def execute(plan, ctx):
    w = U.UW(ctx, plan["config"])
    st = dict(fresh=False, canon=False)
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        k = op["op"]
        if k == "prepare":
            prepare(w, op, st)
        elif k == "evolve":
            if not w.cfg.get("real"):
                evolve(w, op, st)
        elif k == "quench":
            quench(w, op, st)
        elif k == "tangent":
            prepare(w, op, st)
            tangent(w, rs)
        elif k == "order":
            prepare(w, op, st)
            order(w, op, rs, st)
        elif k == "dynexp":
            prepare(w, op, st)
            dynexp(w, op, rs, st)
        elif k == "double":
            prepare(w, op, st)
            double(w, op, rs)
        elif k == "args":
            prepare(w, op, st)
            args(w, op, rs, st)
        else:
            if not w.good(0.96):
                prepare(w, dict(op, how="cf"), st)
            p05.edit(w, op, rs, st)
        ctx.log("A", *w.A())


def prepare(w, op, st):
    if w.min_schmidt() < MIN_SCHMIDT or not w.good(GAP):
        # replace the state by a well-conditioned one
        rs = np.random.RandomState(op.get("seed", 0) ^ 0x5a5a)
        for i in range(40):
            w.set_A(U.rand_cell(rs, w.L, w.q, w.D, real=bool(w.cfg.get("real"))))
            if w.min_schmidt() >= MIN_SCHMIDT and w.good(GAP):
                break
        else:
            raise Abandon("ill-conditioned state")
        w.ctx.op("reset")
    if op["how"] == "nocf":
        w.ctx.must("update", lambda: w.s.update(restore_CF=False))
    else:
        w.ctx.must("update", lambda: w.s.update())
    st["fresh"], st["canon"] = True, op["how"] != "nocf"


def quench(w, op, st):
    h = dict(op["ham"])
    if w.cfg.get("real"):
        h.update(kind="real", callable=False, tp=False)
    w.ctx.op("quench", (h["sites"], h["callable"], op["via_set"]))
    w.set_model(h)
    w.apply_ham(op["via_set"])
    st["fresh"] = False


def evolve(w, op, st):
    ctx, s = w.ctx, w.s
    ctx.op("evolve-" + op["how"])
    prepare(w, dict(how="cf"), st)
    ut = M.UniTangent(w.A(), w.h, w.sites)
    nb = max(1.0, np.sqrt(abs(ut.B()[1].sum())))
    dt = 0.03 / nb * (1.0 if op["imag"] else 1j)
    for i in range(op["n"]):
        if op["how"] == "rk4":
            ctx.must("take_step_RK4", lambda: s.take_step_RK4(dt), seed=op["seed"])
        elif op["how"] == "dynexp" and w.D < 5:
            ctx.must("take_step", lambda: s.take_step(dt, dynexp=True, D_max=5, dD_max=1), seed=op["seed"])
        else:
            ctx.must("take_step", lambda: s.take_step(dt), seed=op["seed"])
        ctx.simtime += abs(dt)
        if not w.good(GAP) or w.min_schmidt() < MIN_SCHMIDT:
            raise Abandon("ill-conditioned after a step")
        ctx.must("update", lambda: s.update())


def norms(w):
    return nla.norm(w.h.reshape(w.q ** w.sites, -1), 2)


def tangent(w, rs, quick=False):
    """calc_B against the dense energy gradient; eta; calc_B_2s / etaBB."""
    ctx, s = w.ctx, w.s
    A = w.A()
    ms = w.min_schmidt()
    ut = M.UniTangent(A, w.h, w.sites)
    b, eta = ut.B()
    ctx.op("tangent", ("sym" if s.symm_gauge else "rgt", w.route, w.sites, w.hcfg["callable"], bool(w.hcfg.get("tp"))))
    s.eta_sq.fill(0)
    s.eta = 0
    B = ctx.must("calc_B", lambda: s.calc_B())
    tol = 1e-9 * norms(w) / ms ** 2 / (1 - w.uni().gap)
    for k in range(w.L):
        ctx.close(B[k], b[k] * np.sqrt(1.0), tol, "tangent-vector", "site %d" % k, scale=max(nla.norm(A[k]), nla.norm(b[k])))
    ctx.close(s.eta_sq, eta, tol, "eta", "squared norm per site")
    ctx.close(s.eta, np.sqrt(eta.sum()), np.sqrt(tol) if eta.sum() < 1e-8 else tol / max(1e-4, np.sqrt(eta.sum())), "eta", "error measure")
    ctx.close(s.h_expect, w.energy(A), 1e-9 * max(1, norms(w)), "energy", "h_expect")
    for k in range(w.L):
        ctx.check(np.array_equal(A[k], w.A()[k]), "observation-changes-state", "calc_B changed tensor %d" % k)
    if rs.rand() < 0.3:
        # the derivative of the energy along an arbitrary direction
        X = U.rand_cell(rs, w.L, w.q, w.D)
        for k in range(w.L):
            y = np.einsum('sab,bd,scd->ac', X[k], ut.rs[k], ut.A[k].conj()) @ nla.inv(ut.rs[(k - 1) % w.L])
            X[k] = X[k] - np.einsum('ab,sbc->sac', y, ut.A[k])
        d = 1e-4

        def e(c):
            return w.L * M.Uni([a + c * x for a, x in zip(ut.A, X)]).energy(w.h, w.sites).real
        for c, part in ((1, np.real), (1j, np.imag)):
            g = (8 * (e(d * c) - e(-d * c)) - (e(2 * d * c) - e(-2 * d * c))) / (12 * d)
            ov = sum(ut.inner(k, X[k], B[k]) for k in range(w.L))
            ctx.close(2 * part(ov), g, 1e-6 * norms(w) / ms ** 2, "energy-derivative", "direction factor %s" % c)
    if not (w.hcfg.get("tp")) and w.D * (w.q - 1) >= 1:
        e2 = ut.eta2s()
        r = ctx.must("calc_B_2s", lambda: s.calc_B_2s(dD_max=2))
        ctx.close(np.asarray(s.etaBB_sq), e2, tol, "etaBB", "squared norm of the two-site component")
        ctx.close(s.etaBB ** 2, e2.sum(), tol, "etaBB", "two-site error measure")


def fresh(w, A, symm=None):
    """A new object in the given state."""
    from evoMPS.tdvp_uniform import EvoMPS_TDVP_Uniform
    ctx = w.ctx
    o = ctx.must("from_tensors", lambda: EvoMPS_TDVP_Uniform.from_tensors([a.copy() for a in A], w.h.copy(), ham_sites=w.sites, do_update=False))
    o.symm_gauge = w.s.symm_gauge if symm is None else symm
    return o


def rd(w, A):
    return np.concatenate([x.ravel() for x in w.rdms(A)])


def phase_of(time, rs):
    return dict(real=1j, imag=1.0, complex=np.exp(1j * rs.uniform(0.2, 1.3)))[time]


def order(w, op, rs, st):
    ctx, s, L = w.ctx, w.s, w.L
    if w.cfg.get("real") and op["time"] != "imag":
        op = dict(op, time="imag")
    rk4 = op["step"] == "rk4"
    p = 4 if rk4 else 1
    A0 = w.A()
    ms = w.min_schmidt()
    ut = M.UniTangent(A0, w.h, w.sites)
    nb = np.sqrt(max(ut.B()[1].sum(), 0))
    wn = norms(w)
    gap = w.uni().gap
    ph = phase_of(op["time"], rs)
    h = (0.3 if rk4 else 0.05) * ms / max(wn, 1e-3)
    ctx.op("order-" + op["step"], (op["time"], w.sites, "sym" if s.symm_gauge else "rgt", w.route))
    E0 = w.energy(A0)

    def one(hh):
        for k in range(L):
            s.A[k] = A0[k].copy()
        ctx.must("update", lambda: s.update(restore_CF=False))
        B = ctx.must("calc_B", lambda: s.calc_B())
        given = rs.rand() < 0.5
        keep = [b.copy() for b in B]
        if rk4:
            ctx.must("take_step_RK4", lambda: s.take_step_RK4(ph * hh, B_i=B if given else None), seed=op["seed"])
        else:
            ctx.must("take_step", lambda: s.take_step(ph * hh, B=B if given else None), seed=op["seed"])
        for k in range(L):
            ctx.check(np.array_equal(B[k], keep[k]), "argument-modified", "the caller's tangent vector was changed by " + op["step"])
        ref = M.uni_flow(A0, w.h, w.sites, ph * hh, 4 if rk4 else 2)
        A1 = w.A()
        return nla.norm(rd(w, A1) - rd(w, ref)), A1
    e = []
    lvl = h
    floor = 1e-11 / ms ** 2 / (1 - gap)
    ok = False
    for i in range(3):
        d, A1 = one(lvl)
        e.append(d)
        if i == 0:
            E1 = w.energy(A1)
            if op["time"] == "imag":
                ctx.check(E1 <= E0 + 1e-10 * max(1, wn) - 0.5 * 2 * lvl * nb ** 2 / L * (1 if nb * lvl < 1e-2 and rk4 else 0),
                          "energy-rises", "%s: %.15g -> %.15g in an imaginary-time step %.3g" % (op["step"], E0, E1, lvl))
        if d < floor or (i and e[i] <= 2.0 * e[i - 1] / 4 ** (p + 1)):
            ok = True
            break
        lvl /= 4
    ctx.check(ok, "step-order", "%s (%s, order %d): errors %s for steps %.3g, /4, /16 do not shrink as required" % (op["step"], op["time"], p, e, h))
    ctx.simtime += h
    ctx.log("order", op["step"], e)
    if not w.good(GAP) or w.min_schmidt() < 1e-3:
        raise Abandon("ill-conditioned after a step")
    A1 = w.A()
    ctx.must("update", lambda: s.update())
    w.same_state(A1, 1e-8, "update-changes-state", "update after a step")
    w.check_fixed_points(1e-8)
    st["fresh"] = st["canon"] = True


def dynexp(w, op, rs, st):
    """Expansion during a step: limits, energy, first-order evolution."""
    ctx, s, L, q = w.ctx, w.s, w.L, w.q
    if w.cfg.get("real"):
        return
    A0 = w.A()
    D0 = w.D
    ms = w.min_schmidt()
    wn = norms(w)
    maxadd = D0 * (q - 1)
    full = rs.rand() < 0.5 and D0 + maxadd <= 8
    if full:
        D_max, dD_max = 64, 64
    else:
        dD_max = rs.randint(1, 4)
        D_max = D0 + rs.randint(0, 4)
    ph = phase_of(op["time"], rs)
    rk4 = op["step"] == "rk4" and not full
    ctx.op("dynexp-" + op["step"], (op["time"], "full" if full else "part", w.sites))
    ut = M.UniTangent(A0, w.h, w.sites)
    E0 = w.energy(A0)
    e2 = ut.eta2s()

    def one(dt, **kw):
        s.symm_gauge, sg = s.symm_gauge, s.symm_gauge
        if w.D != D0:
            o = fresh(w, A0)
            o.ev_brute, o.ev_use_arpack = s.ev_brute, s.ev_use_arpack
            o.ham, o.ham_tp = s.ham, s.ham_tp
            w.s = o
        else:
            for k in range(L):
                s.A[k] = A0[k].copy()
        o = w.s
        ctx.must("update", lambda: o.update(restore_CF=False))
        f = o.take_step_RK4 if rk4 else o.take_step
        ctx.must("take_step", lambda: f(dt, **kw), seed=op["seed"])
        return w.A()
    h = 0.02 * ms / max(wn, 1e-3)
    A1 = one(ph * h, dynexp=True, D_max=D_max, dD_max=dD_max)
    D1 = A1[0].shape[1]
    ctx.check(all(a.shape == (q, D1, D1) for a in A1), "expand-dimension", "shapes %s" % [a.shape for a in A1])
    want = min(D0 + min(dD_max, maxadd), D_max) if D0 < D_max else D0
    if min(e2) > 1e-12:
        ctx.check(D1 == want, "expand-dimension", "D %d -> %d with D_max=%d, dD_max=%d (expected %d)" % (D0, D1, D_max, dD_max, want))
    ctx.check(D1 <= max(D_max, D0) and D1 - D0 <= dD_max, "expand-limits", "D %d -> %d with D_max=%d, dD_max=%d" % (D0, D1, D_max, dD_max))
    ctx.check(int(w.s.D) == D1, "bond-dimension-record", "D=%s, tensors %d" % (w.s.D, D1))
    if not w.good(0.97):
        raise Abandon("degenerate after expansion")
    gap = w.uni().gap
    if op["time"] == "imag":
        E1 = M.Uni(A1).energy(w.h, w.sites).real
        ctx.check(E1 <= E0 + 1e-10 * max(1, wn) + 5e3 * (wn * h / ms) ** 2 * h * wn, "energy-rises", "expanding imaginary-time step: %.12g -> %.12g" % (E0, E1))
    if full and w.sites == 2 and min(e2) > 1e-12:
        # the expanded step contains all of H|psi>: local density matrices change exactly to first order
        n = 2
        m = n + 2
        if q ** m <= 256:
            for k in range(L):
                rho = M.Uni(A0).rdm((k - 1) % L, m)
                Hm = np.zeros((q ** m, q ** m), dtype=complex)
                for j in range(m - 1):
                    Hm += np.kron(np.kron(np.eye(q ** j), w.h.reshape(q * q, q * q)), np.eye(q ** (m - 2 - j)))
                if op["time"] == "real":
                    dr = -1j * (Hm @ rho - rho @ Hm)
                    x = dr.reshape((q, q ** n, q) * 2)
                    d_ex = np.einsum('atbaub->tu', x)
                    e = []
                    hh = h
                    for i in range(3):
                        Ai = one(ph * hh, dynexp=True, D_max=D_max, dD_max=dD_max)
                        d_num = (M.Uni(Ai).rdm(k, n) - M.Uni(A0).rdm(k, n)) / hh
                        e.append(nla.norm(d_num - d_ex))
                        if e[-1] < 1e-7 or (i and e[i] < e[i - 1] / 2.5):
                            break
                        hh /= 4
                    else:
                        ctx.check(False, "expanded-step-first-order", "errors %s of d rho/dt do not vanish with the step (h=%.3g, /4, /16)" % (e, h))
                    break
    if not full or rs.rand() < 0.3:
        # the old-space part of the step is the one without expansion
        A1 = one(ph * h, dynexp=True, D_max=D_max, dD_max=dD_max)
        if A1[0].shape[1] > D0 or rk4:
            A2 = one(ph * h)
            for k in range(L):
                ctx.close(A1[k][:, :D0, :D0] if True else 0, A2[k], 1e-9 / ms ** 2, "expansion-changes-step", "old block at site %d" % k, scale=nla.norm(A2[k]))
            if A1[0].shape[1] > D0:
                A1 = one(ph * h, dynexp=True, D_max=D_max, dD_max=dD_max)
    # the object goes on working
    if w.D != D0:
        o = w.s
    ctx.simtime += h
    Ai = w.A()
    if not w.good(0.97) or w.min_schmidt() < 1e-5:
        raise Abandon("nothing to expand into")
    ctx.must("update", lambda: w.s.update())
    w.same_state(Ai, 1e-7, "update-changes-state", "update after an expanding step")
    w.check_fixed_points(1e-7)
    st["fresh"] = st["canon"] = True


def double(w, op, rs):
    """The same state described with twice the unit cell has the same tangent vector and error measure per site."""
    ctx, s, L = w.ctx, w.s, w.L
    if L > 2 or w.cfg.get("real"):
        return
    ctx.op("double")
    A = w.A()
    B = ctx.must("calc_B", lambda: s.calc_B())
    eta = float(np.real(s.eta))
    g = [unitary(rs, w.D) for _ in range(2 * L)]
    T = [np.einsum('ab,sbc,cd->sad', g[j - 1].conj().T, A[j % L], g[j]) for j in range(2 * L)]
    o = fresh(w, T, symm=rs.rand() < 0.5)
    ctx.must("update", lambda: o.update())
    ctx.close(o.h_expect, s.h_expect, 1e-9 * max(1, norms(w)), "blocking-energy", "doubled unit cell")
    ctx.must("calc_B", lambda: o.calc_B())
    tol = 1e-8 * norms(w) / w.min_schmidt() ** 2
    ctx.close(float(np.real(o.eta)) ** 2, 2 * eta ** 2, tol, "blocking-eta", "doubled unit cell")
    dt = 0.05 / max(1, norms(w)) * (1j if op["time"] == "real" else 1)
    f = "take_step_RK4" if op["step"] == "rk4" else "take_step"
    A0 = w.A()
    ctx.must(f, lambda: getattr(s, f)(dt), seed=op["seed"])
    ctx.must(f, lambda: getattr(o, f)(dt), seed=op["seed"])
    u, v = M.Uni([np.array(a) for a in s.A]), M.Uni([np.array(a) for a in o.A])
    n = w.window()
    for k in range(2 * L):
        ctx.close(v.rdm(k, n), u.rdm(k % L, n), tol * 10, "blocking-step", "%s with a doubled unit cell, offset %d" % (f, k))
    for k in range(L):
        s.A[k] = A0[k].copy()
    ctx.must("update", lambda: s.update(restore_CF=False))


def args(w, op, rs, st):
    """Steps along a tangent vector supplied by the caller; caller's arrays stay as they are."""
    ctx, s, L = w.ctx, w.s, w.L
    ctx.op("args")
    A0 = w.A()
    X = U.rand_cell(rs, L, w.q, w.D, real=bool(w.cfg.get("real")))
    keep = [x.copy() for x in X]
    dt = 0.03 if w.cfg.get("real") else 0.03 * np.exp(1j * rs.uniform(-1, 1))
    ctx.must("take_step", lambda: s.take_step(dt, B=X))
    for k in range(L):
        ctx.close(w.A()[k], A0[k] - dt * keep[k], 1e-12, "custom-step", "site %d" % k)
        ctx.check(np.array_equal(X[k], keep[k]), "argument-modified", "caller's tangent vector %d" % k)
    st["fresh"] = st["canon"] = False
    # stepping back restores the state
    ctx.must("take_step", lambda: s.take_step(-dt, B=X))
    w.same_state(A0, 1e-9, "custom-step", "there and back")
    if not callable(s.ham):
        ctx.close(np.asarray(s.ham), w.h, 1e-14, "argument-modified", "Hamiltonian")
