"""P06: every quantity an infinite chain reports is that of its current state, at any cell offset, at any point of its history."""
import numpy as np
import numpy.linalg as nla

from .. import model as M
from .. import uniform as U
from ..core import Abandon
from ..finite import rmat, unitary
from . import p05

shrink = U.shrink_ucfg
EDITS = ["randomize", "noise", "scramble", "apply1s", "tensors", "expand", "truncate", "autotrunc", "block", "phase", "gauge", "opts", "form"]


def gen(rng, tier, idx):
    kinds = ("random", "tensors", "tensors", "biased", "product")
    cfg = U.gen_ucfg(rng, tdvp=rng.random() < 0.75, kinds=kinds)
    if rng.random() < 0.12:
        cfg.update(q=3, D=rng.randint(2, 6), cls="mps", real=False)
        cfg["init"]["kind"] = "u1"
    elif rng.random() < 0.05:
        cfg.update(q=2, D=9, L=rng.randint(1, 2), real=False)
    ops = [dict(op="observe", seed=rng.randrange(1 << 30), how="cf")]
    for _ in range(rng.randint(1, 4)):
        u = rng.random()
        sd = rng.randrange(1 << 30)
        if u < 0.5:
            ops.append(dict(op=rng.choice(EDITS), seed=sd))
        elif u < 0.7:
            ops.append(dict(op="evolve", seed=sd, how=rng.choice(["euler", "rk4", "dynexp"]), n=rng.randint(1, 2), imag=rng.random() < 0.5))
        elif u < 0.9:
            ops.append(dict(op="quench", seed=sd, ham=U.gen_ham(rng, rng.choice([2, 3])), via_set=rng.random() < 0.5))
        ops.append(dict(op="observe", seed=rng.randrange(1 << 30), how=rng.choice(["cf", "cf", "nocf", "twice"])))
        if rng.random() < 0.3:
            ops.append(dict(op="fidelity", seed=rng.randrange(1 << 30)))
        if cfg["init"]["kind"] == "u1" and rng.random() < 0.6:
            ops = [ops[0], dict(op="u1", seed=sd)] + ops[1:]
    return dict(config=cfg, ops=ops, cls=U.ucfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def execute(plan, ctx):
    w = U.UW(ctx, plan["config"])
    s = w.s
    st = dict(fresh=False, canon=False)
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        k = op["op"]
        if not w.good():
            raise Abandon("degenerate state")
        if k == "observe":
            observe(w, op, rs, st)
        elif k == "fidelity":
            fidelity(w, rs)
        elif k == "u1":
            p05.ensure(w, st, True)
            u1(w, rs)
        elif k == "evolve":
            evolve(w, op, st)
        elif k == "quench":
            if w.is_tdvp and w.q <= 4:
                ctx.op("quench", (op["ham"]["sites"], op["ham"]["callable"], op["via_set"]))
                h = dict(op["ham"])
                if w.cfg.get("real"):
                    h.update(kind="real", callable=False, tp=False)
                w.set_model(h)
                w.apply_ham(op["via_set"])
                st["fresh"] = False
        elif k == "opts":
            w.set_opts(rs.choice(["arpack", "power", "brute"]), rs.rand() < 0.5)
            st["canon"] = False
        else:
            p05.edit(w, op, rs, st)
        ctx.log("A", *w.A())


def observe(w, op, rs, st):
    ctx, s = w.ctx, w.s
    if p05.deficient(w.A()) < 1e-4:
        raise Abandon("rank-deficient state")
    how = op["how"]
    ctx.op("observe-" + how, ("sym" if s.symm_gauge else "rgt", w.route))
    if how == "nocf":
        ctx.must("update", lambda: s.update(restore_CF=False))
    else:
        ctx.must("update", lambda: s.update())
    st["fresh"], st["canon"] = True, how != "nocf"
    A0 = w.A()
    many = w.L <= 3 or rs.rand() < 0.3
    for _ in range(2 if how == "twice" else 1):
        w.observe(rs, many)
    if w.is_tdvp and w.hcfg["callable"] and w.L <= 2 and w.q ** w.sites <= 9:
        for k in range(w.L):
            f = s.expect_2s if w.sites == 2 else s.expect_3s
            v = ctx.must("expect_ham", lambda f=f, k=k: f(s.ham, k))
            ctx.close(v, w.uni().expect(w.h, k, w.sites), 1e-8, "expect-ham", "offset %d" % k)
    for k in range(w.L):
        ctx.check(np.array_equal(A0[k], w.A()[k]), "observation-changes-state", "site %d" % k)


def fidelity(w, rs):
    """Overlap per site with another state: other bond dimension, other unit cell, equivalent states; dense and sparse routes."""
    ctx, s, L, q = w.ctx, w.s, w.L, w.q
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    ctx.must("update", lambda: s.update())
    A = w.A()
    if rs.rand() < 0.4:
        g = [unitary(rs, w.D) for _ in range(L)]
        T = [np.einsum('ab,sbc,cd->sad', g[j - 1].conj().T, A[j], g[j]) * np.exp(2j * np.pi * rs.rand()) for j in range(L)]
        if rs.rand() < 0.5 and L <= 2:
            T = T + [t.copy() for t in T]
    else:
        T = U.rand_cell(rs, rs.randint(1, 4), q, rs.randint(1, 7))
    if M.Uni(T).gap > 0.96:
        return
    o = ctx.must("from_tensors", lambda: EvoMPS_MPS_Uniform.from_tensors([t.astype(complex) for t in T], do_update=False))
    o.symm_gauge = rs.rand() < 0.5
    cf = rs.rand() < 0.7
    ctx.must("update", lambda: o.update(restore_CF=cf))
    B = [np.array(b) for b in o.A]
    Lc = int(np.lcm(L, len(B)))
    E = M.cell_transfer(A * (Lc // L), B * (Lc // len(B)))
    ev = nla.eigvals(E)
    ev = ev[np.argsort(-abs(ev))]
    if len(ev) > 1 and abs(ev[1]) > 0.97 * abs(ev[0]) or abs(ev[0]) < 1e-4:
        return
    d = abs(ev[0]) ** (1.0 / Lc)
    dup = rs.rand() < 0.5
    ctx.op("fidelity")
    for kw in (dict(), dict(force_dense=True), dict(force_sparse=True), dict(left=True), dict(left=True, force_sparse=True)):
        if E.shape[0] <= 3 and kw.get("force_sparse") and E.shape[0] > 1:
            continue
        full = dup or bool(kw.get("left"))
        if full:
            r = ctx.must("fidelity_per_site", lambda: s.fidelity_per_site(o, full_output=True, **kw), seed=11)
            ctx.check(len(r) == 3, "fidelity", "full_output")
            V = np.asarray(r[2]).reshape(A[0].shape[1], B[0].shape[1])
            v = V.ravel()
            if kw.get("left"):
                v2 = v.conj() @ E
                ctx.close(v2, ev[0] * v.conj(), 1e-7, "fidelity-vector", "left eigenvector %s" % kw)
            else:
                ctx.close(E @ v, ev[0] * v, 1e-7, "fidelity-vector", "right eigenvector %s" % kw)
        else:
            r = ctx.must("fidelity_per_site", lambda: s.fidelity_per_site(o, **kw), seed=11)
        ctx.close(r[0], d, 1e-8, "fidelity", "fidelity per site %s" % kw)
        ctx.close(r[1], ev[0], 1e-8, "fidelity-eigenvalue", "eigenvalue %s" % kw)
    # (the caller's other state is untouched)
    for a, b in zip(o.A, B):
        ctx.check(np.array_equal(np.array(a), b), "fidelity-changes-other", "")


def u1(w, rs):
    """Half-chain symmetry data of a charge-conserving state."""
    ctx, s, L, q = w.ctx, w.s, w.L, w.q
    if w.charges is None or p05.deficient(w.A()) < 1e-3:
        return
    A = w.A()
    u = M.Uni(A)
    ch = np.arange(q) - (q - 1) / 2.0
    Q = np.diag(ch).astype(complex)
    if abs(sum(u.expect(Q, k, 1) for k in range(L))) > 1e-9:
        raise Abandon("charge not conserved")
    ctx.op("u1")
    th = rs.uniform(0.2, 1.0)
    R = np.diag(np.exp(1j * th * ch))
    for k in range(L):
        w2 = np.asarray(s.schmidt_sq((k - 1) % L)).real
        # bond charges in the current gauge: the symmetry acts as V on the bonds
        r = ctx.must("sum_hc", lambda: s.expect_sum_1s_density_hc(Q, k, tol=1e-12, return_g=True))
        if w.D == 1:
            continue
        n = np.asarray(r[0])
        ctx.close(r[1], 0.0, 1e-8, "sum-hc-total", "charge per site")
        ctx.close(np.sum(n * w2), 0.0, 1e-6, "sum-hc", "mean of the Schmidt-vector charges, cut %d" % k)
        ctx.close(n.imag, np.zeros(w.D), 1e-6, "sum-hc", "charges are real")
        X = np.asarray(r[2])
        # defining property: X(before site k) A[k] = op A + A X(after): total over one site
        r1 = ctx.must("sum_hc", lambda: s.expect_sum_1s_density_hc(Q, (k + 1) % L, tol=1e-12, return_g=True))
        X1 = np.asarray(r1[2])
        a = A[k]
        lhs = np.einsum('ab,sbc->sac', X, a)
        rhs = np.einsum('s,sab->sab', ch, a) + np.einsum('sab,bc->sac', a, X1)
        dif = lhs - rhs
        c = np.vdot(a, dif) / np.vdot(a, a)          # the two cuts may differ by the mean charge of the site
        ctx.close(dif, c * a, 1e-6, "sum-hc", "charge conservation across site %d" % k)
        ctx.close(c, -u.expect(Q, k, 1), 1e-6, "sum-hc", "mean charge of site %d" % k)
        r = ctx.must("string_hc", lambda: s.expect_string_1s_density_hc(R, k, return_g=True), seed=5)
        ctx.close(np.asarray(r[1]).ravel()[0] ** L, 1.0, 1e-7, "string-hc", "overlap per site")
        ind = int(np.argmax(w2))
        want = np.exp(1j * th * (n.real - n.real[ind]))
        ctx.close(r[0], want, 1e-6, "string-hc", "string on the Schmidt vectors, cut %d" % k)


def evolve(w, op, st):
    ctx, s = w.ctx, w.s
    if not w.is_tdvp or w.cfg.get("real"):
        return
    p05.ensure(w, st, True)
    if p05.deficient(w.A()) < 1e-2:
        return
    dt = 0.02 * (1.0 if op["imag"] else 1j)
    ctx.op("evolve-" + op["how"])
    for _ in range(op["n"]):
        if op["how"] == "rk4":
            ctx.must("take_step_RK4", lambda: s.take_step_RK4(dt), seed=op["seed"])
        elif op["how"] == "dynexp":
            if w.D > 5:
                return
            ctx.must("take_step", lambda: s.take_step(dt, dynexp=True, D_max=6, dD_max=1), seed=op["seed"])
        else:
            ctx.must("take_step", lambda: s.take_step(dt), seed=op["seed"])
        ctx.simtime += 0.02
        st["fresh"] = st["canon"] = False
        if not w.good() or p05.deficient(w.A()) < 1e-4:
            raise Abandon("degenerate after a step")
        ctx.must("update", lambda: s.update())
        st["fresh"] = st["canon"] = True
