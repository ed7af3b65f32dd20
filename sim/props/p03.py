"""P03: finite-chain tangent vectors and time steps follow the tangent-space-projected dynamics."""
import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from ..core import Abandon
from . import p01

EDITS = ["scramble", "apply1s", "mpo", "noise", "tensors", "swapform", "trunc", "randomize", "scale"]
METHODS = ["euler", "euler", "savemem", "withB", "rk4", "rk4", "rk4_B", "split", "split", "split_mpo", "split_only_mpo", "evolve_split", "dmrg", "mpoB"]
ORDER = dict(euler=1, savemem=1, withB=1, rk4=4, rk4_B=4, split=2, split_mpo=2, split_only_mpo=2, evolve_split=2, mpoB=1)
MIN_SCHMIDT = 0.02


def shrink(plan):
    return F.shrink_cfg(plan)


def gen(rng, tier, idx):
    cfg = F.gen_cfg(rng, tdvp=True, Dmax=4, dmax=100, Nmax=6, kinds=("random", "tensors", "random", "tensors", "product"))
    if rng.random() < 0.25:
        q = cfg["q"]
        cfg["D"] = [1] + [min(F.maxD(q, n), 8) for n in range(1, cfg["N"])] + [1]
    ops = []
    for _ in range(rng.randint(1, 3)):
        u = rng.random()
        if u < 0.5:
            ops.append(dict(op=rng.choice(EDITS), seed=rng.randrange(1 << 30)))
        elif u < 0.75:
            hs = 3 if (cfg["N"] >= 3 and rng.random() < 0.4) else 2
            nt = cfg["N"] - hs + 1
            cal = rng.random() < 0.15
            ops.append(dict(op="quench", seed=rng.randrange(1 << 30), ham=dict(
                sites=hs, kind=rng.choice(["rand", "real"]), seed=rng.randrange(1 << 30), callable=cal,
                missing=[] if cal else [n for n in range(2, nt + 1) if rng.random() < 0.15], scale=1.0)))
        else:
            ops.append(dict(op="steps", seed=rng.randrange(1 << 30), how=rng.choice(["euler", "rk4", "savemem"]), n=rng.randint(1, 3)))
        ops.append(dict(op="tangent", seed=rng.randrange(1 << 30), keepcf=rng.random() < 0.25))
        ops.append(dict(op="order", seed=rng.randrange(1 << 30), how=rng.choice(METHODS), keepcf=rng.random() < 0.15,
                        time=rng.choice(["real", "imag", "imag", "real", "complex"])))
    return dict(config=cfg, ops=ops, cls=F.cfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def execute(plan, ctx):
    w = F.FW(ctx, plan["config"])
    s = w.s
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        k = op["op"]
        psi0 = w.psi()
        n0 = nla.norm(psi0.ravel())
        if not np.isfinite(n0) or n0 < 1e-6 or n0 > 1e8:
            raise Abandon("degenerate norm %r" % n0)
        if k == "quench":
            ctx.op("quench", (op["ham"]["sites"], op["ham"]["callable"]))
            w.set_model(op["ham"])
            s.ham = w.make_ham()
            s.ham_sites = op["ham"]["sites"]
        elif k == "steps":
            ready(w, False)
            if w.min_schmidt() < MIN_SCHMIDT:
                continue
            for _ in range(op["n"]):
                dt = (0.02 if rs.rand() < 0.5 else 0.02j)
                step(w, op["how"], dt, op["seed"])
                ready(w, False)
        elif k == "tangent":
            ready(w, op["keepcf"])
            tangent(w, rs)
        elif k == "order":
            ready(w, op["keepcf"] and op["how"] not in ("split", "split_mpo", "split_only_mpo", "evolve_split", "dmrg"))
            order(w, op, rs)
        else:
            p01.do_edit(w, op, rs, psi0, n0)
        ctx.log("psi", w.psi())


def ready(w, keepcf):
    if keepcf:
        w.ctx.must("update", lambda: w.s.update(restore_CF=False))
    else:
        w.ctx.must("update", lambda: w.s.update())


def total_terms(w, extra=None):
    return list(w.terms) + ([(0, w.N, extra)] if extra is not None else [])


def phi_pieces(w, B):
    """Dense tangent vector of B: one piece per site."""
    A = w.A()
    out = []
    for n in range(1, w.N + 1):
        if B[n] is None:
            out.append(None)
            continue
        T = list(A)
        T[n - 1] = np.array(B[n], dtype=complex)
        out.append(M.vec_from_tensors(T))
    return out


def bond_svals(w):
    return w.min_schmidt()


def herm_mpo(w, rs, m=2):
    """A Hermitian MPO over the whole chain: list [None, W1..WN] and its dense matrix."""
    dims = [1] + [int(rs.randint(1, m + 1)) for _ in range(w.N - 1)] + [1]
    W = []
    for i in range(w.N):
        d = w.q[i]
        x = np.array([[F.rmat(rs, d) / d for _ in range(dims[i + 1])] for _ in range(dims[i])])
        x[0, 0] += 0.5 * np.eye(d)
        W.append(x)
    out = []
    for i, x in enumerate(W):
        y = np.conj(np.transpose(x, (0, 1, 3, 2)))
        if w.N == 1:
            z = x + y
        elif i == 0:
            z = np.concatenate([x, y], axis=1)
        elif i == w.N - 1:
            z = np.concatenate([x, y], axis=0)
        else:
            z = np.zeros((x.shape[0] * 2, x.shape[1] * 2) + x.shape[2:], dtype=complex)
            z[:x.shape[0], :x.shape[1]] = x
            z[x.shape[0]:, x.shape[1]:] = y
        out.append(z)
    dense = F.FW.mpo_dense(out)
    f = 1.0 / max(nla.norm(dense, 2), 1e-3)
    out[0] = out[0] * f
    return [None] + out, dense * f


def tangent(w, rs):
    ctx, s = w.ctx, w.s
    ms = w.min_schmidt()
    if ms < 1e-3:
        ctx.probe("tangent-skipped-deficient")
        return
    ctx.op("tangent")
    psi = w.psi()
    A0 = w.A()
    E = w.energy(psi)
    T = M.TangentSpace(A0)
    Hp = M.ham_apply(psi, w.terms)
    want = T.project(Hp - E * psi)
    tol = 1e-9 / ms
    B = ctx.must("calc_B", lambda: s.calc_B())
    for n in range(w.N):
        ctx.check(np.array_equal(A0[n], w.A()[n]), "tangent-modifies-state", "site %d" % (n + 1))
    check_phi(w, B, want, tol, "calc_B", s.eta, s.eta_sq)
    e0 = complex(s.eta)
    B2 = ctx.must("calc_B again", lambda: s.calc_B(set_eta=False))
    for n in range(1, w.N + 1):
        ctx.check((B[n] is None) == (B2[n] is None), "tangent-not-repeatable", "site %d" % n)
        if B[n] is not None:
            ctx.close(B2[n], B[n], 1e-9, "tangent-not-repeatable", "site %d" % n)
            Bn = ctx.must("calc_B_n", lambda: s.calc_B_n(n, set_eta=False))
            ctx.close(Bn, B[n], 1e-9, "tangent-single-site", "calc_B_n(%d)" % n)
    ctx.close(s.eta, e0, 1e-12, "eta-changed", "set_eta=False changed eta")
    # the energy reported with it
    ctx.close(s.H_expect, E, 1e-9, "energy", "H_expect")


def check_phi(w, B, want, tol, what, eta, eta_sq):
    ctx = w.ctx
    pieces = phi_pieces(w, B)
    phi = np.zeros_like(want)
    for n, p in enumerate(pieces):
        if p is not None:
            phi = phi + p
    d = nla.norm((phi - want).ravel())
    ctx.check(d <= tol * max(1.0, nla.norm(want.ravel())), "tangent-vector",
              "%s: differs from the projection of (H - E)|psi> by %.3g (norm %.3g)" % (what, d, nla.norm(want.ravel())))
    ctx.close(complex(eta).real, nla.norm(want.ravel()), tol, "eta", what + ": eta against norm of the projected evolution")
    tot = 0.0
    for n, p in enumerate(pieces):
        e = complex(eta_sq[n + 1])
        tot += e.real
        ctx.close(e, 0.0 if p is None else float(np.vdot(p, p).real), tol, "eta-site", "%s: eta_sq[%d]" % (what, n + 1))
    ctx.close(tot, nla.norm(want.ravel()) ** 2, tol, "eta-sum", what)


def step(w, how, dtau, seed, extra=None, mpo=None):
    """One time step with method `how`; checks that arguments survive."""
    ctx, s = w.ctx, w.s
    if how == "euler":
        ctx.must("take_step", lambda: s.take_step(dtau), seed=seed)
    elif how == "savemem":
        ctx.must("take_step", lambda: s.take_step(dtau, save_memory=True), seed=seed)
    elif how in ("withB", "rk4_B", "mpoB"):
        B = ctx.must("calc_B", (lambda: s.calc_B_MPO(mpo)) if how == "mpoB" else (lambda: s.calc_B()))
        keep = [None if b is None else np.array(b) for b in B]
        if how == "rk4_B":
            ctx.must("take_step_RK4", lambda: s.take_step_RK4(dtau, B_i=B), seed=seed)
        else:
            ctx.must("take_step", lambda: s.take_step(dtau, B=B), seed=seed)
        for n, b in enumerate(B):
            ctx.check((b is None) == (keep[n] is None) and (b is None or np.array_equal(b, keep[n])), "argument-modified",
                      "%s changed the supplied tangent vector at site %d" % (how, n))
    elif how == "rk4":
        ctx.must("take_step_RK4", lambda: s.take_step_RK4(dtau), seed=seed)
    elif how == "split":
        ctx.must("take_step_split", lambda: F.take_step_split(ctx, s, dtau), seed=seed)
    elif how == "split_mpo":
        ctx.must("take_step_split", lambda: F.take_step_split(ctx, s, dtau, HMPO=mpo), seed=seed)
    elif how == "split_only_mpo":
        ctx.must("take_step_split", lambda: F.take_step_split(ctx, s, dtau, HMPO=mpo, use_local_ham=False), seed=seed)
    elif how == "evolve_split":
        from evoMPS.split_step import evolve_split
        ham = [None] + [np.zeros(tuple(w.q[n:n + w.sites]) * 2, dtype=complex) if t is None else t for n, t in enumerate(w.hterms)]
        ctx.must("evolve_split", lambda: evolve_split(s, ham, w.sites, dtau, 1, expm_max_steps=200), seed=seed)
    ctx.simtime += abs(dtau)
    if mpo is not None:
        for x, y in zip(mpo[1:], w.mpo_keep):
            ctx.check(np.array_equal(x, y), "argument-modified", "%s changed the MPO" % how)
    check_ham_untouched(w)


def check_ham_untouched(w):
    if not w.hcfg["callable"]:
        for n, t in enumerate(w.hterms):
            g = w.s.ham[n + 1]
            w.ctx.check((g is None) == (t is None) and (t is None or np.array_equal(g, t)), "hamiltonian-modified", "term %d" % (n + 1))


def restart(w, A0, keep):
    """Back to the tensors A0, handing over arrays which we still own."""
    mine = [a.copy() for a in A0]
    w.ctx.must("set_state_from_tensors", lambda: w.s.set_state_from_tensors([None] + mine, do_update=False))
    w.ctx.must("update", lambda: w.s.update(restore_CF=False, normalize=False))
    return mine


def order(w, op, rs):
    ctx, s = w.ctx, w.s
    how = op["how"]
    if how in ("split", "split_mpo", "split_only_mpo", "evolve_split", "dmrg"):
        if how != "evolve_split" and s.canonical_form != "right":
            return
        if s.canonical_form != "right":
            return
        if op["time"] == "complex":
            op = dict(op, time="imag")
    ms = w.min_schmidt()
    if ms < MIN_SCHMIDT:
        ctx.probe("order-skipped-illconditioned")
        return
    if how == "dmrg":
        return dmrg(w, op, rs)
    p = ORDER[how]
    psi0 = w.psi()
    A0 = w.A()
    mpo = extra = None
    if how in ("split_mpo", "split_only_mpo", "mpoB"):
        mpo, extra = herm_mpo(w, rs)
        w.mpo_keep = [x.copy() for x in mpo[1:]]
    terms = total_terms(w, extra)
    if how in ("split_only_mpo", "mpoB"):
        terms = [(0, w.N, extra)]
    wn = sum(nla.norm(np.asarray(t).reshape(int(np.prod(t.shape[:t.ndim // 2])), -1), 2) for _, _, t in terms)
    if wn < 1e-3:
        return
    maximal = all(int(s.D[n]) == F.maxD(w.q, n) for n in range(1, w.N))
    ctx.op("order-" + how, (op["time"], "max" if maximal else "sub", s.gauge_fixing, s.canonical_form))
    ctx.probe("order-" + how + ("-max" if maximal else ""))
    if how == "mpoB":
        # tangent vector of a global operator (right gauge)
        T = M.TangentSpace(A0)
        Ep = M.inner(psi0, M.ham_apply(psi0, terms)).real
        want = T.project(M.ham_apply(psi0, terms) - Ep * psi0)
        s.eta_sq.fill(0)
        B = ctx.must("calc_B_MPO", lambda: s.calc_B_MPO(mpo))
        check_phi(w, B, want, 1e-9 / ms, "calc_B_MPO", s.eta, s.eta_sq)
        ctx.close(s.H_expect, Ep, 1e-9, "energy", "H_expect of calc_B_MPO")
    ph = dict(real=1j, imag=1.0, complex=np.exp(1j * rs.uniform(0.2, 1.3)))[op["time"]]
    if rs.rand() < 0.2 and op["time"] == "real":
        ph = -ph                       # backwards in real time
    h = (0.15 if p > 1 else 0.05) * min(1.0, ms * 4) / wn
    flow = M.Flow(terms, [int(d) for d in s.D])
    Hd = M.ham_dense(terms, w.q) if maximal else None
    phase = how not in ("split", "split_mpo", "split_only_mpo", "evolve_split")

    def ref(dtau):
        if maximal:
            v = exact(Hd, dtau, psi0, phase)
            return v
        return flow.rk4(psi0, dtau, 6 if p == 4 else (3 if p == 2 else 2))

    def err(hh):
        mine = restart(w, A0, None)
        keep = [a.copy() for a in mine]
        step(w, how, ph * hh, op["seed"], extra, mpo)
        for n in range(w.N):
            ctx.check(np.array_equal(mine[n], keep[n]), "argument-modified", "%s changed the caller's tensor %d" % (how, n + 1))
        psi = w.psi()
        nrm = nla.norm(psi.ravel())
        ctx.check(np.isfinite(nrm) and 0.5 < nrm < 2, "step-norm", "%s: norm %r after a small step" % (how, nrm))
        r = ref(ph * hh)
        r = r / nla.norm(r.ravel())
        d = nla.norm((psi / nrm - r).ravel()) if phase else M.ray_dist(r, psi)
        return d, nrm, psi / nrm
    if maximal and how in ("split", "split_mpo", "split_only_mpo", "evolve_split"):
        d, nrm, psi = err(h)
        ctx.check(d <= 1e-8, "split-not-exact", "%s: error %.3g at maximal bond dimension" % (how, d))
        finish(w, how)
        return
    floor = 1e-11 / ms
    e = []
    lvl = h
    ok = False
    norms = []
    for i in range(3):
        d, nrm, psi = err(lvl)
        e.append(d)
        norms.append(abs(nrm - 1))
        if i == 0:
            # conservation laws of the step itself
            E0 = M.inner(psi0, M.ham_apply(psi0, terms)).real
            E1 = M.inner(psi, M.ham_apply(psi, terms)).real
            if op["time"] == "imag" and p != 2:
                ctx.check(E1 <= E0 + 1e-10 * max(1, abs(E0)), "energy-rises", "%s: %.15g -> %.15g in an imaginary-time step %.3g" % (how, E0, E1, lvl))
            if op["time"] == "real" and p == 2:
                ctx.close(E1, E0, 1e-9, "energy-drifts", "%s: energy after a real-time step" % how)
            ctx.close(norms[0], 0.0, 10 * (wn * lvl) ** 2 + 1e-9, "norm-order", "%s: norm change of a step" % how)
        if d < floor:
            ok = True
            break
        if i and e[i] <= 2.0 * e[i - 1] / 4 ** (p + 1):
            ok = True
            break
        lvl = lvl / 4
    ctx.check(ok, "step-order", "%s (%s, order %d): errors %s for steps %.3g, /4, /16 do not shrink as required" % (how, op["time"], p, e, h))
    x = h * wn / ms
    ctx.check(e[0] <= 3.0 * x ** (p + 1) + floor, "step-error", "%s: error %.3g for a step of relative size %.3g" % (how, e[0], x))
    ctx.log("order", how, e)
    finish(w, how)


def exact(H, dtau, psi, phase):
    wv, U = nla.eigh(H)
    c = U.conj().T @ psi.ravel()
    # parallel transport: remove the phase accumulated by the instantaneous energy
    v = U @ (np.exp(-dtau * wv) * c)
    if phase and abs(np.imag(dtau)) > 0:
        # integrate E(s) along the path
        xs, ws = np.polynomial.legendre.leggauss(12)
        tot = 0.0
        for xx, ww in zip(xs, ws):
            sfrac = (xx + 1) / 2
            a = np.abs(np.exp(-dtau * sfrac * wv) * c) ** 2
            tot += ww / 2 * float(np.sum(a * wv) / np.sum(a))
        v = v * np.exp(1j * np.imag(dtau) * tot)
    return v.reshape(psi.shape)


def finish(w, how):
    """The state after the step is a normal, consistent state."""
    psi1 = w.psi()
    w.ctx.must("update", lambda: w.s.update())
    w.same_state(psi1, 1e-8, "update-changes-state", norm=1.0, what="update after " + how)
    w.ctx.close(w.s.H_expect, w.energy(), 1e-9, "energy", "H_expect after %s and update" % how)


def dmrg(w, op, rs):
    ctx, s = w.ctx, w.s
    ctx.op("dmrg")
    psi0 = w.psi()
    E0 = w.energy()
    ctx.must("vari_opt_ss_sweep", lambda: s.vari_opt_ss_sweep(), seed=op["seed"])
    E1 = w.energy()
    ctx.check(E1 <= E0 + 1e-9 * max(1, abs(E0)), "energy-rises", "variational sweep: %.15g -> %.15g" % (E0, E1))
    ctx.close(s.H_expect, E1, 1e-8, "energy", "H_expect after a variational sweep")
    check_ham_untouched(w)
    w.check_D()
    if all(int(s.D[n]) == F.maxD(w.q, n) for n in range(1, w.N)):
        Eg = nla.eigvalsh(M.ham_dense(w.terms, w.q))[0]
        # a second sweep at maximal bond dimension is at the exact ground state unless stuck in a symmetry sector
        ctx.check(E1 >= Eg - 1e-9, "energy-below-ground", "%r < %r" % (E1, Eg))
    finish(w, "dmrg")
