"""P02: every quantity a finite chain reports is that of its current state, at any point of its history."""
import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from ..core import Abandon
from . import p01

EDITS = ["scramble", "apply1s", "mpo", "noise", "tensors", "product", "swapform", "trunc", "lowrank", "randomize", "scale"]
shrink = F.shrink_cfg


def gen(rng, tier, idx):
    cfg = F.gen_cfg(rng, tdvp=rng.random() < 0.85, Dmax=4)
    ops = []
    for _ in range(rng.randint(1, 5)):
        u = rng.random()
        sd = rng.randrange(1 << 30)
        if u < 0.45:
            ops.append(dict(op=rng.choice(EDITS), seed=sd))
        elif u < 0.65:
            ops.append(dict(op="evolve", seed=sd, how=rng.choice(["euler", "rk4", "savemem", "dynexp", "split"]), n=rng.randint(1, 3),
                            imag=rng.random() < 0.5))
        elif u < 0.8:
            hs = 3 if (cfg["N"] >= 3 and rng.random() < 0.4) else 2
            nt = cfg["N"] - hs + 1
            ops.append(dict(op="quench", seed=sd, ham=dict(
                sites=hs, kind=rng.choice(["rand", "real"]), seed=rng.randrange(1 << 30), callable=rng.random() < 0.2,
                missing=[n for n in range(2, nt + 1) if rng.random() < 0.1], scale=1.0)))
            if ops[-1]["ham"]["callable"]:
                ops[-1]["ham"]["missing"] = []
        elif u < 0.9:
            ops.append(dict(op="autotrunc", seed=sd))
        ops.append(dict(op="observe", seed=rng.randrange(1 << 30), how=rng.choice(["update", "update", "update", "keepcf", "twice", "autotrunc"])))
        if rng.random() < 0.3:
            ops.append(dict(op="inner", seed=rng.randrange(1 << 30)))
    return dict(config=cfg, ops=ops, cls=F.cfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def execute(plan, ctx):
    w = F.FW(ctx, plan["config"])
    s = w.s
    fresh = False
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        k = op["op"]
        psi0 = w.psi()
        n0 = nla.norm(psi0.ravel())
        if not np.isfinite(n0) or n0 < 1e-6 or n0 > 1e8:
            raise Abandon("degenerate norm %r" % n0)
        if k == "observe":
            observe(w, op, rs, psi0)
            fresh = True
        elif k == "inner":
            inner(w, rs, psi0)
        elif k == "evolve":
            evolve(w, op, rs)
        elif k == "quench":
            if w.is_tdvp:
                ctx.op("quench", (op["ham"]["sites"], op["ham"]["callable"]))
                w.set_model(op["ham"])
                s.ham = w.make_ham()
                s.ham_sites = op["ham"]["sites"]
        elif k == "autotrunc":
            ctx.op(k)
            ctx.must("update", lambda: s.update())
            z = rs.choice([1e-12, 1e-3, 1e-2])
            ctx.must("auto_truncate", lambda: s.auto_truncate(update=True, zero_tol=z))
            check_all(w, rs)
        else:
            p01.do_edit(w, op, rs, psi0, n0)
        ctx.log("psi", w.psi())


def observe(w, op, rs, psi0):
    ctx, s = w.ctx, w.s
    how = op["how"]
    ctx.op("observe-" + how)
    if how == "keepcf":
        ctx.must("update", lambda: s.update(restore_CF=False))
    elif how == "autotrunc":
        ctx.must("update", lambda: s.update(auto_truncate=True))
    else:
        ctx.must("update", lambda: s.update())
    w.same_state(psi0, 1e-6 if how == "autotrunc" else 1e-8, "update-changes-state", norm=1.0, what="update")
    if how == "twice":
        check_all(w, rs)
    check_all(w, rs)


def check_all(w, rs):
    ctx, s = w.ctx, w.s
    psi = w.psi()
    A0 = w.A()
    for name, fn, ref in w.observations(rs, psi):
        v = ctx.must(name, fn)
        ctx.close(v, ref, 1e-8 if name.startswith(("schmidt", "entropy")) else 1e-9, name.split("(")[0].split("[")[0], name)
        ctx.log(name, np.asarray(v, dtype=complex))
    A1 = w.A()
    for n in range(w.N):
        ctx.check(np.array_equal(A0[n], A1[n]), "observation-changes-state", "site %d" % (n + 1))
    # reading the Hamiltonian terms back through the state's own expectation value
    if w.is_tdvp and not w.hcfg["callable"]:
        for n, k, t in w.terms:
            f = s.expect_2s if k == 2 else s.expect_3s
            v = ctx.must("expect_ham", lambda f=f, n=n: f(s.ham[n + 1], n + 1))
            ctx.close(v, M.inner(psi, M.apply_op(psi, t, n, k)), 1e-9, "expect-ham-term", "term %d" % (n + 1))


def inner(w, rs, psi0):
    """Overlap with a different chain (other bond dimensions, other class)."""
    ctx, s = w.ctx, w.s
    ctx.op("inner")
    from evoMPS.mps_gen import EvoMPS_MPS_Generic
    D = [1] + [rs.randint(1, 5) for _ in range(w.N - 1)] + [1]
    T = F.rand_tensors(rs, w.q, D)
    o = ctx.must("new", lambda: EvoMPS_MPS_Generic(w.N, np.array(D), np.array([w.q[0]] + w.q)))
    ctx.must("set", lambda: o.set_state_from_tensors([None] + T))
    po = M.vec_from_tensors([np.array(o.A[n]) for n in range(1, w.N + 1)])
    ctx.close(ctx.must("inner", lambda: s.inner(o)), np.vdot(po, psi0), 1e-9, "inner", "inner(other)", scale=max(1.0, nla.norm(psi0.ravel())))
    ctx.close(ctx.must("inner", lambda: o.inner(s)), np.vdot(psi0, po), 1e-9, "inner", "other.inner(self)", scale=max(1.0, nla.norm(psi0.ravel())))
    n2 = float(np.vdot(psi0, psi0).real)
    ctx.close(ctx.must("inner", lambda: s.inner(s)), n2, 1e-9, "inner", "inner(self)", scale=max(1.0, n2))


def evolve(w, op, rs):
    ctx, s = w.ctx, w.s
    if not w.is_tdvp:
        return
    ctx.must("update", lambda: s.update())
    if w.min_schmidt() < 1e-3:
        return
    how = op["how"]
    ctx.op("evolve-" + how)
    dt = 0.02 * (1.0 if op["imag"] else 1j)
    for _ in range(op["n"]):
        if how == "split":
            if w.s.canonical_form != "right":
                return
            ctx.must("take_step_split", lambda: F.take_step_split(ctx, s, dt), seed=op["seed"])
        elif how == "rk4":
            ctx.must("take_step_RK4", lambda: s.take_step_RK4(dt))
        elif how == "savemem":
            ctx.must("take_step", lambda: s.take_step(dt, save_memory=True))
        elif how == "dynexp":
            if max(int(x) for x in s.D) >= 6:
                return
            ctx.must("take_step", lambda: s.take_step(dt, dynexp=True, D_max=6, dD_max=2))
        else:
            ctx.must("take_step", lambda: s.take_step(dt))
        ctx.simtime += 0.02
        ctx.must("update", lambda: s.update())
        if w.min_schmidt() < 1e-4:
            return
