"""P05: infinite chains - updates by any route and gauge preserve the state; fixed points and canonical form hold; edits do
what they document."""
import numpy as np
import numpy.linalg as nla

from .. import model as M
from .. import uniform as U
from ..core import Abandon
from ..finite import arr, rmat, unitary

shrink = U.shrink_ucfg
EDITS = ["randomize", "noise", "scramble", "apply1s", "tensors", "set_q", "expand0", "expand", "truncate", "autotrunc", "block", "phase",
         "gauge", "opts", "form", "lowrank", "redundant", "from_tensors"]


def gen(rng, tier, idx):
    cfg = U.gen_ucfg(rng, tdvp=rng.random() < 0.5, tp_ok=False)
    ops = []
    if rng.random() < 0.8:
        ops.append(upd(rng))
    for _ in range(rng.randint(1, 5)):
        k = rng.choice(EDITS)
        ops.append(dict(op=k, seed=rng.randrange(1 << 30)))
        if rng.random() < 0.85:
            ops.append(upd(rng))
    ops.append(upd(rng))
    return dict(config=cfg, ops=ops, cls=U.ucfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def upd(rng):
    d = dict(op="update", seed=rng.randrange(1 << 30), how=rng.choice(["cf", "cf", "cf", "nocf", "trunc", "trunc_nocf"]), faults=[])
    u = rng.random()
    if u < 0.2:
        d["faults"] = [dict(site=rng.choice(["cholesky", "cholesky", "eigs"]), kind=None, nth=rng.randint(1, 3), count=rng.randint(1, 2), frac=0.5)]
        for f in d["faults"]:
            f["kind"] = "fail" if f["site"] == "cholesky" else rng.choice(["noconv", "unlucky"])
    return d


def execute(plan, ctx):
    w = U.UW(ctx, plan["config"])
    if not w.good():
        raise Abandon("degenerate start")
    st = dict(fresh=False, canon=False)      # fresh: l, r belong to A;  canon: in canonical form
    for op in plan["ops"]:
        if op["op"] == "update":
            update(w, op, st)
        else:
            rs = np.random.RandomState(op["seed"])
            edit(w, op, rs, st)
            if not w.good():
                raise Abandon("degenerate state after " + op["op"])
        ctx.log("A", *w.A())


def deficient(A):
    u = M.Uni(A)
    m = 1.0
    for k in range(u.L):
        x = np.clip(u.schmidt_sq(k), 0, None)
        m = min(m, np.sqrt(x.min() / x.max()))
    return m


def update(w, op, st):
    ctx, s = w.ctx, w.s
    A0 = w.A()
    how = op["how"]
    sm = deficient(A0)
    full = sm > 1e-4
    if 3e-7 < sm < 1e-4:
        raise Abandon("nearly rank-deficient state %.0e" % sm)
    if how == "trunc_nocf":
        how = "trunc"
        st_after = False
    else:
        st_after = True
    ctx.op("update-" + how, ("sym" if s.symm_gauge else "rgt", w.route, "full" if full else "low"))
    D0 = w.D
    if how == "nocf":
        fn = lambda: s.update(restore_CF=False)
    elif how == "trunc":
        fn = lambda: s.update(auto_truncate=True, restore_CF_after_trunc=st_after)
    else:
        fn = lambda: s.update()
    faults = op["faults"]
    if any(f["site"] == "eigs" and f["kind"] == "noconv" and f["count"] > 2 for f in faults):
        faults = []
    ctx.call("update", fn, faults=faults, seed=op["seed"])
    tol = 1e-8 if full else 1e-6
    w.same_state(A0, tol, "update-changes-state", "update (%s)" % how)
    for a, b in zip(w.A(), A0):
        ctx.check(a.dtype == b.dtype, "dtype", "tensor type changed from %s to %s" % (b.dtype, a.dtype))
    if full or s.symm_gauge or w.D < D0:
        # (a rank-deficient state in right form: the environments of never-occupied directions mean nothing)
        w.check_fixed_points(tol)
    st["fresh"], st["canon"] = True, how != "nocf" and (how != "trunc" or st_after or w.D == D0)
    if st["canon"] and (full or s.symm_gauge):
        w.check_canonical(tol, full_rank=full or w.D < D0)
    if how == "trunc":
        if full:
            ctx.check(w.D == D0, "auto-truncate-dimension", "full-rank state: bond dimension %d -> %d" % (D0, w.D))
        ctx.check(int(s.D) == w.D, "bond-dimension-record", "D=%s but tensors have %d" % (s.D, w.D))
    elif how == "cf":
        ctx.check(w.D == D0 == int(s.D), "bond-dimension-record", "update without truncation changed D")
    if how == "nocf":
        # without restoring canonical form only the overall scale may change
        for k in range(w.L):
            a, b = w.A()[k], A0[k]
            c = np.vdot(b, a) / np.vdot(b, b)
            ctx.close(a, c * b, 1e-10, "update-nocf-changes-tensors", "site %d" % k, scale=nla.norm(a))
            # (the factor is a positive number)
            ctx.check(abs(c.imag) <= 1e-7 * abs(c) and c.real > 0, "update-nocf-changes-tensors", "factor %r at site %d" % (c, k))


def ensure(w, st, canon=False):
    if not st["fresh"] or (canon and not st["canon"]):
        w.ctx.must("update", lambda: w.s.update(auto_truncate=deficient(w.A()) < 1e-4))
        st["fresh"] = st["canon"] = True


def edit(w, op, rs, st):
    ctx, s, L, q = w.ctx, w.s, w.L, w.q
    k = op["op"]
    A0 = w.A()
    D0 = w.D
    do_up = rs.rand() < 0.3
    real = bool(w.cfg.get("real"))
    ctx.op("edit-" + k)
    if k == "randomize":
        ctx.must(k, lambda: s.randomize(do_update=False), seed=op["seed"])
        ctx.check(all(a.shape == (q, D0, D0) for a in w.A()), "randomize-shape")
        for a in w.A():
            ctx.close(nla.norm(a), 1.0, 1e-9, "randomize-norm")
    elif k == "noise":
        f = rs.choice([1e-3, 0.1, 1.0])
        ctx.must(k, lambda: s.add_noise(f, do_update=False), seed=op["seed"])
        for a, b in zip(w.A(), A0):
            amp = f * nla.norm(b) / (q * D0 ** 2) / 2
            d = a - b
            ctx.check(np.max(np.abs(d.real)) <= amp * 1.0001 + 1e-15 and np.max(np.abs(d.imag)) <= amp * 1.0001 + 1e-15 and np.max(np.abs(d)) > 0,
                      "noise-amplitude", "noise of factor %g changed a tensor by %.3g (limit %.3g)" % (f, np.max(np.abs(d)), amp))
    elif k == "scramble":
        w.gauge_scramble(rs, real=real)
        w.same_state(A0, 1e-9, "harness-scramble")
    elif k == "tensors":
        w.set_A(U.rand_cell(rs, L, q, D0, real))
    elif k == "lowrank":
        if D0 > 1 and not real:
            T = U.rand_cell(rs, L, q, D0 - 1)
            for j in range(L):
                s.A[j][:] = 0
                s.A[j][:, :-1, :-1] = T[j]
            w.gauge_scramble(rs)
    elif k == "redundant":
        # a user edit: the same state with a larger bond, extra directions never occupied
        if D0 < 6 and not real:
            ensure(w, st)
            A0, D0 = w.A(), w.D
            ctx.must("expand_D", lambda: s.expand_D(D0 + 1, refac=0, imfac=0))
            w.same_state(A0, 1e-6, "expand-without-noise", "expand_D(refac=0)")
    elif k == "expand0":
        ensure(w, st)
        A0, D0 = w.A(), w.D
        n = D0 + rs.randint(0, 3)
        r = ctx.must(k, lambda: s.expand_D(n, refac=0, imfac=0))
        ctx.check(w.D == n == int(s.D), "expand-dimension", "expand_D(%d) gave D=%d, tensors %d" % (n, s.D, w.D))
        w.same_state(A0, 1e-8, "expand-without-noise", "expand_D(refac=0, imfac=0)")
    elif k == "expand":
        ensure(w, st)
        A0, D0 = w.A(), w.D
        n = D0 + rs.randint(1, 3)
        ctx.must(k, lambda: s.expand_D(n, refac=0.1 if rs.rand() < 0.5 else 1.0, imfac=0 if real else 0.1), seed=op["seed"])
        ctx.check(w.D == n == int(s.D), "expand-dimension", "expand_D(%d) gave D=%d, tensors %d" % (n, s.D, w.D))
        for a, b in zip(w.A(), A0):
            ctx.check(np.array_equal(a[:, :D0, :D0], b), "expand-changes-old-block", "old block of the tensors changed")
            ctx.check(np.any(a[:, :D0, D0:] != 0) and np.any(a[:, D0:, :D0] != 0), "expand-adds-nothing", "no noise in the new blocks")
    elif k == "set_q":
        n = q + rs.choice([-1, 1]) if q > 2 else q + 1
        up = n > q
        off = rs.randint(0, 2) if up else 0
        ctx.must(k, lambda: s.set_q(n, offset=off))
        w.q = n
        if w.is_tdvp:
            w.cfg["ham"] = dict(w.cfg["ham"])
            w.set_model(w.cfg["ham"])
            w.apply_ham(True)
        B = w.A()
        ctx.check(int(s.q) == n and all(b.shape == (n, D0, D0) for b in B), "set-q-shape", "set_q(%d): shapes %s" % (n, [b.shape for b in B]))
        for a, b in zip(B, A0):
            want = np.zeros_like(a)
            if up:
                want[off:off + q] = b
            else:
                want[:] = b[:n]
            ctx.check(np.array_equal(a, want), "set-q-content", "set_q(%d, offset=%d) from q=%d" % (n, off, q))
    elif k == "apply1s":
        j = rs.randint(0, L)
        o = unitary(rs, q) if rs.rand() < 0.5 else rmat(rs, q)
        if real:
            o = o.real
        f = (lambda a, b, o=o: o[int(a), int(b)]) if rs.rand() < 0.3 and not real else o
        ctx.must(k, lambda: s.apply_op_1s(f, j, do_update=do_up), seed=op["seed"])
        T = [a.copy() for a in A0]
        T[j] = np.tensordot(o, T[j], axes=([1], [0]))
        u = M.Uni(T)
        if u.gap > 0.96 or deficient(T) < 1e-5:
            raise Abandon("degenerate")
        w.same_state(T, 1e-8, "apply-op", "apply_op_1s at offset %d" % j)
        st["fresh"] = st["canon"] = do_up
        return
    elif k == "truncate":
        if D0 > 1:
            ensure(w, st, True)
            A0, D0 = w.A(), w.D
            if D0 == 1:
                return
            ref, sv = U.own_scf(w.A())
            n = rs.randint(1, D0)
            # ambiguous cut: nothing to say about which vectors are kept
            amb = any(len(x) > n and x[n - 1] - x[n] < 1e-4 * x[0] for x in sv)
            ctx.must(k, lambda: s.truncate(n, update=do_up))
            ctx.check(w.D == n == int(s.D), "truncate-dimension", "truncate(%d) gave D=%d, tensors %d" % (n, s.D, w.D))
            T = [a[:, :n, :n] for a in ref]
            u = M.Uni(T)
            if u.gap > 0.9 or amb:
                raise Abandon("ambiguous truncation")
            w.same_state(T, 1e-6, "truncate-keeps-dominant", "truncate(%d) from %d" % (n, D0))
            st["fresh"] = st["canon"] = False
            if do_up:
                w.check_fixed_points(1e-8)
                w.check_canonical(1e-8)
                st["fresh"] = st["canon"] = True
            return
    elif k == "autotrunc":
        ensure(w, st, True)
        A0, D0 = w.A(), w.D
        lam = [np.sort(np.diag(arr(s.l[j])).real)[::-1] for j in range(L)]
        z = rs.choice([1e-12, 1e-3, 1e-2, 0.05])
        n = max(1, max(int(np.sum(x > z)) for x in lam))
        near = any(np.any(np.abs(x - z) < 1e-6 * z + 1e-13) for x in lam)
        r = ctx.must(k, lambda: s.auto_truncate(update=True, zero_tol=z))
        if not near:
            ctx.check(w.D == n, "auto-truncate-dimension", "threshold %g: D=%d, expected %d" % (z, w.D, n))
            ctx.check(bool(r) == (n < D0), "auto-truncate-result", "returned %r for %d -> %d" % (r, D0, n))
        if w.D == D0:
            w.same_state(A0, 1e-8, "auto-truncate-changes-state", "nothing below the threshold")
        elif not w.good():
            raise Abandon("degenerate after truncation")
        w.check_fixed_points(1e-8)
        if deficient(w.A()) > 1e-5:
            w.check_canonical(1e-8)
        st["fresh"] = st["canon"] = True
        return
    elif k == "block":
        if q ** L > 16 or L == 1:
            return
        ensure(w, st)
        A0, D0 = w.A(), w.D
        u0 = M.Uni(A0)
        ctx.must(k, lambda: s.convert_to_TI_blocked(do_update=do_up))
        B = w.A()
        ctx.check(len(B) == 1 == int(s.L) and B[0].shape == (q ** L, D0, D0) and int(s.q) == q ** L, "block-shape",
                  "blocked tensors %s, L=%s q=%s" % ([b.shape for b in B], s.L, s.q))
        u1 = M.Uni(B)
        ctx.close(u1.rdm(0, 1), u0.rdm(0, L), 1e-8, "block-changes-state", "one blocked site against %d sites" % L)
        if q ** (2 * L) <= 64:
            ctx.close(u1.rdm(0, 2), u0.rdm(0, 2 * L), 1e-8, "block-changes-state", "two blocked sites against %d sites" % (2 * L))
        if w.is_tdvp:
            # the energy per blocked site is L times the energy per site
            if do_up:
                ctx.close(s.h_expect, L * u0.energy(w.h, w.sites), 1e-8, "block-energy", "energy per blocked site")
            hb = np.zeros((q ** (2 * L),) * 2, dtype=complex)
            for j in range(L):
                hb += np.kron(np.kron(np.eye(q ** j), w.h.reshape(q ** w.sites, -1)), np.eye(q ** (2 * L - j - w.sites)))
            w.h, w.sites = hb.reshape((q ** L,) * 4), 2
            w.hcfg = dict(w.hcfg, sites=2, callable=False, tp=False)
        w.q, w.L = q ** L, 1
        st["fresh"] = st["canon"] = do_up
        return
    elif k in ("phase", "gauge"):
        other(w, k, rs, st)
        return
    elif k == "opts":
        w.set_opts(rs.choice(["arpack", "power", "brute"]), rs.rand() < 0.5)
        st["canon"] = False
        return
    elif k == "form":
        forms(w, rs, st)
        return
    elif k == "from_tensors":
        from_tensors(w, rs)
        return
    st["fresh"] = st["canon"] = False
    if do_up and k in ("randomize",):
        ctx.must("update", lambda: s.update())


def forms(w, rs, st):
    """restore_SCF/RCF/LCF called by hand on an updated state."""
    ctx, s, L = w.ctx, w.s, w.L
    ensure(w, st)
    A0, D0 = w.A(), w.D
    if deficient(w.A()) < 1e-4:
        return
    if rs.rand() < 0.5:
        w.gauge_scramble(rs, real=bool(w.cfg.get("real")))
        ctx.must("update", lambda: s.update(restore_CF=False))
    A0 = w.A()
    f = rs.choice(["SCF", "RCF", "LCF", "RCF", "LCF", "CF"])
    ctx.op("restore-" + f)
    if f in ("SCF", "CF"):
        ctx.must(f, lambda: getattr(s, "restore_" + f)())
        form = "sym" if f == "SCF" or s.symm_gauge else "right"
        G = None
    else:
        G, Gi = ctx.must(f, lambda: getattr(s, "restore_" + f)(ret_g=True))
        form = "right" if f == "RCF" else "left"
    w.same_state(A0, 1e-8, "restore-changes-state", "restore_" + f)
    w.check_fixed_points(1e-8)
    w.check_canonical(1e-8, form=form)
    if G is not None:
        A1 = w.A()
        for k in range(L):
            ctx.close(np.asarray(G[k]) @ np.asarray(Gi[k]), np.eye(w.D), 1e-7, "restore-gauge-matrices", "G G_i at %d" % k)
            g, gi = (G, Gi)
            # G transforms the state tensors: A -> G_i A G
            if f == "RCF":
                want = np.einsum('ab,sbc,cd->sad', np.asarray(gi[k - 1]), A0[k], np.asarray(g[k]))
            else:
                want = np.einsum('ab,sbc,cd->sad', np.asarray(gi[k - 1]), A0[k], np.asarray(g[k]))
            ctx.close(A1[k], want, 1e-7, "restore-gauge-matrices", "A -> G_i A G at site %d (restore_%s)" % (k, f), scale=nla.norm(want))
    st["fresh"] = True
    st["canon"] = form == ("sym" if s.symm_gauge else "right")


def other(w, k, rs, st):
    """phase_align / gauge_align with another state."""
    ctx, s, L = w.ctx, w.s, w.L
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    ensure(w, st)
    A0, D0 = w.A(), w.D
    if deficient(w.A()) < 1e-3 or w.cfg.get("real"):
        return
    A0 = w.A()
    T = [a.copy() for a in A0]
    D = w.D
    if k == "phase" and rs.rand() < 0.5:
        T = U.rand_cell(rs, L, w.q, rs.randint(1, 5))
    else:
        g = [unitary(rs, D) @ np.diag(np.exp(rs.uniform(-0.4, 0.4, D))) for _ in range(L)]
        T = [np.einsum('ab,sbc,cd->sad', nla.inv(g[j - 1]), T[j], g[j]) * np.exp(2j * np.pi * rs.rand()) for j in range(L)]
    u = M.Uni(T)
    o = ctx.must("from_tensors", lambda: EvoMPS_MPS_Uniform.from_tensors([np.array(t) for t in T], do_update=False))
    o.symm_gauge = rs.rand() < 0.5
    cf = rs.rand() < 0.5
    ctx.must("update", lambda: o.update(restore_CF=cf))
    B = [np.array(b) for b in o.A]
    m = nla.eigvals(M.cell_transfer(A0, B))
    m = m[np.argsort(-abs(m))]
    if len(m) > 1 and abs(m[1]) > 0.97 * abs(m[0]) or abs(m[0]) < 1e-3:
        raise Abandon("degenerate overlap")
    if k == "phase":
        phi = ctx.must("phase_align", lambda: s.phase_align(o))
        ctx.close(phi, m[0], 1e-8, "phase-align", "returned overlap eigenvalue")
        m2 = nla.eigvals(M.cell_transfer(w.A(), B))
        z = m2[np.argmax(abs(m2))]
        ctx.close(z, abs(m[0]), 1e-8, "phase-align", "overlap eigenvalue after aligning")
        for a, b in zip(w.A(), A0):
            c = np.vdot(b, a) / np.vdot(b, b)
            ctx.close(a, c * b, 1e-10, "phase-align", "only phases may change", scale=nla.norm(a))
            ctx.close(abs(c), 1.0, 1e-9, "phase-align", "only phases may change")
        w.check_fixed_points(1e-8)
        st["canon"] = st["canon"]
        return
    r = ctx.must("gauge_align", lambda: s.gauge_align(o, tol=1e-9))
    ctx.check(r is not None and len(r) == 3, "gauge-align", "gauge_align did nothing for equivalent states")
    w.same_state(A0, 1e-8, "gauge-align-state", "gauge_align")
    for j in range(L):
        ctx.close(w.A()[j], B[j], 1e-6, "gauge-align", "tensor %d after gauge_align" % j, scale=nla.norm(B[j]))
    w.check_fixed_points(1e-7)
    for j in range(L):
        ctx.close(np.asarray(r[0][j]) @ np.asarray(r[1][j]), np.eye(D), 1e-7, "gauge-align", "g g_i")
        want = np.einsum('ab,sbc,cd->sad', np.asarray(r[1][j - 1]), A0[j] * (np.conj(r[2]) / abs(r[2]) if j == 0 else 1), np.asarray(r[0][j]))
        ctx.close(w.A()[j], want, 1e-7, "gauge-align", "A -> g_i A g", scale=nla.norm(want))
    # (other is untouched)
    for j in range(L):
        ctx.check(np.array_equal(np.array(o.A[j]), B[j]), "gauge-align-other", "the other state changed")
    st["canon"] = False


def from_tensors(w, rs):
    ctx = w.ctx
    from evoMPS.mps_uniform import EvoMPS_MPS_Uniform
    A0 = w.A()
    if deficient(A0) < 1e-4:
        raise Abandon("rank-deficient")
    for do in (True, False):
        o = ctx.must("from_tensors", lambda: EvoMPS_MPS_Uniform.from_tensors([a.copy() for a in A0], do_update=do))
        v = U.UW(ctx, w.cfg, build=False)
        v.L, v.q = w.L, w.q
        v.s, v.is_tdvp = o, False
        v.same_state(A0, 1e-8, "from-tensors", "from_tensors(do_update=%s)" % do)
        if do:
            v.check_fixed_points(1e-8)
