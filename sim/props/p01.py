"""P01: canonical form and normalisation of finite chains preserve the state, after any history."""
import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from ..core import Abandon

EDITS = ["scramble", "apply1s", "mpo", "noise", "tensors", "product", "swapform", "trunc", "lowrank", "randomize", "step", "quietcf", "scale"]
CFS = ["update", "update", "update", "nonorm", "keepcf", "keepcf_nonorm", "qr", "noqr", "noqr", "nodiag", "noqr_nodiag", "nonorm_noqr", "other_form", "double"]
shrink = F.shrink_cfg


def gen(rng, tier, idx):
    cfg = F.gen_cfg(rng, tdvp=False, Dmax=5 if rng.random() < 0.4 else 3)
    ops = []
    for _ in range(rng.randint(2, 7)):
        if rng.random() < 0.75:
            ops.append(dict(op=rng.choice(EDITS), seed=rng.randrange(1 << 30)))
        o = dict(op="cf", how=rng.choice(CFS), seed=rng.randrange(1 << 30))
        if rng.random() < 0.4:
            o["faults"] = [dict(site="cholesky", kind="fail", nth=rng.randint(0, 5), count=rng.choice([1, 1, 2, 50]))]
        ops.append(o)
    return dict(config=cfg, ops=ops, cls=F.cfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def execute(plan, ctx):
    w = F.FW(ctx, plan["config"])
    s = w.s
    w.canon = False
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        psi0 = w.psi()
        n0 = nla.norm(psi0.ravel())
        if not np.isfinite(n0) or n0 < 1e-6 or n0 > 1e8:
            raise Abandon("degenerate norm %r" % n0)
        if op["op"] == "cf":
            do_cf(w, op, rs, psi0, n0)
        else:
            do_edit(w, op, rs, psi0, n0)
        ctx.log("psi", w.psi())


def do_edit(w, op, rs, psi0, n0, names=None):
    ctx, s, N = w.ctx, w.s, w.N
    k = op["op"]
    ctx.op(k)
    upd = bool(rs.rand() < 0.3)          # let the edit itself do the update
    expect = None                        # expected (unnormalised) vector
    if k == "scramble":
        f = w.gauge_scramble(rs, cond=rs.choice([1.5, 4.0, 20.0]))
        upd = False
        expect = psi0 * f
    elif k == "scale":
        f = complex(rs.choice([0.1, 7.0]) * np.exp(1j * rs.uniform(0, 6)))
        n = rs.randint(1, N + 1)
        s.A[n] *= f
        upd = False
        expect = psi0 * f
    elif k == "apply1s":
        n = rs.randint(1, N + 1)
        o = w.rand_op(rs, n, rs.choice(["herm", "any", "unitary", "proj"]))
        expect = M.apply_op(psi0, o, n - 1, 1)
        if nla.norm(expect.ravel()) < 1e-3 * n0:
            raise Abandon("operator annihilates the state")
        f = (lambda i, j: o[int(i), int(j)]) if rs.rand() < 0.3 else o
        o_keep = o.copy()
        ctx.must("apply_op_1s", lambda: s.apply_op_1s(f, n, do_update=upd), seed=op["seed"])
        ctx.check(np.array_equal(o, o_keep), "argument-modified", "apply_op_1s changed its operator")
    elif k == "mpo":
        kk = rs.randint(1, N + 1)
        n1 = rs.randint(1, N - kk + 2)
        if max(int(x) for x in s.D) > 8:
            return
        mpo, dense = w.rand_mpo(rs, n1, kk)
        expect = M.apply_op(psi0, dense, n1 - 1, kk)
        if nla.norm(expect.ravel()) < 1e-2 * n0:
            raise Abandon("operator annihilates the state")
        ctx.must("apply_op_MPO", lambda: s.apply_op_MPO(mpo, n1, do_update=upd), seed=op["seed"])
    elif k == "noise":
        fac = rs.choice([1e-3, 0.1])
        A0 = w.A()
        ctx.must("add_noise", lambda: s.add_noise(fac, do_update=upd), seed=op["seed"])
        if not upd:
            for n in range(N):
                d = w.A()[n] - A0[n]
                ctx.check(np.max(np.abs(d.real)) <= fac * (1 + 1e-12) and np.max(np.abs(d.imag)) <= fac * (1 + 1e-12), "noise-size", "site %d" % (n + 1))
        else:
            post_update(w, None)
            return
    elif k == "randomize":
        ctx.must("randomize", lambda: s.randomize(do_update=upd), seed=op["seed"])
        if upd:
            post_update(w, None)
        return
    elif k == "tensors":
        D = [1] + [rs.randint(1, 5) for _ in range(N - 1)] + [1]
        T = F.rand_tensors(rs, w.q, D)
        T0 = [t.copy() for t in T]
        expect = M.vec_from_tensors(T)
        if nla.norm(expect.ravel()) < 1e-3:
            raise Abandon("tiny norm")
        ctx.must("set_state_from_tensors", lambda: s.set_state_from_tensors([None] + T, do_update=upd), seed=op["seed"])
        for a, b in zip(T, T0):
            ctx.check(np.array_equal(a, b), "argument-modified", "set_state_from_tensors changed its argument")
    elif k == "product":
        v = [F.rmat(rs, w.q[n], 1).ravel() for n in range(N)]
        expect = np.ones(())
        for x in v:
            expect = np.multiply.outer(expect, x)
        ctx.must("set_state_product", lambda: s.set_state_product(v, do_update=upd), seed=op["seed"])
    elif k == "lowrank":
        D = [int(x) for x in s.D]
        Dl = [1] + [max(1, d - rs.randint(0, 3)) for d in D[1:-1]] + [1]
        T = F.rand_tensors(rs, w.q, Dl)
        for n in range(N):
            x = np.zeros((w.q[n], D[n], D[n + 1]), dtype=complex)
            x[:, :Dl[n], :Dl[n + 1]] = T[n]
            T[n] = x
        expect = M.vec_from_tensors(T)
        if nla.norm(expect.ravel()) < 1e-3:
            raise Abandon("tiny norm")
        ctx.must("set_state_from_tensors", lambda: s.set_state_from_tensors([None] + T, do_update=upd), seed=op["seed"])
    elif k == "swapform":
        s.canonical_form = "left" if s.canonical_form == "right" else "right"
        if w.is_tdvp and rs.rand() < 0.7:
            s.gauge_fixing = s.canonical_form
        return
    elif k == "quietcf":
        # a complete, unchecked canonicalisation so that later edits start from canonical form
        ctx.must("update", lambda: s.update())
        w.same_state(psi0, 1e-6, "update-changes-state", norm=1.0, what="update")
        return
    elif k == "step":
        if not w.is_tdvp or w.hcfg["missing"] or w.min_schmidt(psi0) < 1e-4:
            return
        ctx.must("update", lambda: s.update())
        ctx.must("take_step", lambda: s.take_step(0.01))
        ctx.simtime += 0.01
        return
    elif k == "trunc":
        ctx.must("update", lambda: s.update())
        D = [int(x) for x in s.D]
        nd = [1] + [max(1, d - int(rs.rand() < 0.5)) for d in D[1:-1]] + [1]
        if nd == D:
            return
        psi1 = w.psi()
        ctx.must("truncate", lambda: s.truncate(np.array(nd), update=upd), seed=op["seed"])
        w.check_D()
        if upd:
            post_update(w, None)
        return
    w.check_D()
    if expect is not None:
        if upd:
            post_update(w, expect)
        else:
            w.same_state(expect, 1e-10, "edit-result", norm=nla.norm(expect.ravel()), what=k)


def post_update(w, expect):
    """State after an edit that did its own (normalising, canonicalising) update."""
    if expect is not None:
        w.same_state(expect, 1e-8, "edit-result", norm=1.0, what="edit with update")
    w.check_D()
    w.check_envs(1e-9)
    w.check_canonical(tol=1e-9)


def do_cf(w, op, rs, psi0, n0):
    ctx, s = w.ctx, w.s
    how = op["how"]
    ms = w.min_schmidt(psi0)
    deficient = ms < 1e-5
    ctx.op("cf-" + how, ("def" if deficient else "full", "f" if op.get("faults") else ""))
    faults = op.get("faults")
    form = s.canonical_form
    strict, diag, norm, canon, tolst = True, True, True, True, 1e-9
    if how in ("update", "double"):
        call = lambda: s.update()
    elif how == "nonorm":
        norm = False
        call = lambda: s.update(normalize=False)
    elif how == "keepcf":
        canon = False
        call = lambda: s.update(restore_CF=False)
    elif how == "keepcf_nonorm":
        canon = norm = False
        call = lambda: s.update(restore_CF=False, normalize=False)
    else:
        noqr = "noqr" in how and not deficient      # the eigenvalue route is for bonds of full rank
        dg = "nodiag" not in how
        nm = "nonorm" not in how
        if how == "other_form":
            form = "left" if form == "right" else "right"
        diag, norm = dg, nm
        if noqr:
            tolst = 1e-7
            # the eigenvalue route squares the condition number of the gauge it starts from
            g = gauge_cond(w)
            tolst = max(tolst, 1e-14 * g ** 2)
            if tolst > 1e-4:
                how = "update"
                noqr, strict, diag, norm, tolst = False, True, True, True, 1e-9
                dg = nm = True
        if form == "right":
            call = lambda: s.restore_RCF(use_QR=not noqr, diag_l=dg, normalize_mps=nm)
        else:
            call = lambda: s.restore_LCF(use_QR=not noqr, diag_r=dg, normalize_mps=nm)
        # restore_* work from the current tensors; eigenvalue routes read the cached end values only
    _, e = ctx.call("cf:" + how, call, faults=faults, seed=op["seed"])
    if e is not None:
        ctx.check(False, "fallback-missing", "a failing factorisation is not survived: %s" % e)
    if how == "double":
        psi1, A1 = w.psi(), w.A()
        ctx.must("update", lambda: s.update())
        ctx.close(w.psi(), psi1, 1e-10, "update-not-idempotent", "second update")
    w.check_D()
    w.same_state(psi0, tolst, "cf-changes-state", norm=(1.0 if norm else n0), what=how)
    envtol = max(1e-9, tolst) * max(1.0, n0 ** 2 if not norm else 1.0)
    w.check_envs(envtol)
    if canon:
        w.check_canonical(norm=norm, tol=max(1e-9, tolst) * (1 if norm else max(1.0, n0 ** 2)), diag=diag, form=form, strict=strict)
    ctx.probe("cf-deficient" if deficient else "cf-full")


def gauge_cond(w):
    """How badly conditioned the environments of the current tensors are."""
    l, r = w.envs()
    c = 1.0
    for n in range(1, w.N):
        for m in (l[n], r[n]):
            ev = nla.eigvalsh((m + m.conj().T) / 2)
            ev = ev[ev > 1e-13 * ev[-1]]
            c = max(c, ev[-1] / ev[0])
    return np.sqrt(c)
