"""P04: bond-dimension changes of finite chains are bounded, optimal, lossless where they can be, and keep the object usable."""
import numpy as np
import numpy.linalg as nla

from .. import finite as F
from .. import model as M
from ..core import Abandon
from . import p01

EDITS = ["scramble", "apply1s", "mpo", "noise", "tensors", "product", "lowrank", "randomize", "step", "scale", "swapform"]
BOND = ["trunc1", "trunc1", "truncm", "truncm", "truncsame", "trunclarger", "auto", "auto", "autoupd", "autoupd", "autoupd_fast", "autoupd_fast",
        "expand", "expand", "expand", "expand", "expand_more", "y2s", "y2s", "split2", "split2", "split2", "dmrg2"]
shrink = F.shrink_cfg


def gen(rng, tier, idx):
    cfg = F.gen_cfg(rng, tdvp=True, Dmax=5 if rng.random() < 0.4 else 3, dmax=130)
    ops = []
    for _ in range(rng.randint(2, 5)):
        if rng.random() < 0.45:
            ops.append(dict(op=rng.choice(EDITS), seed=rng.randrange(1 << 30)))
        ops.append(dict(op=rng.choice(BOND), seed=rng.randrange(1 << 30)))
        if rng.random() < 0.4:
            ops.append(dict(op="usable", seed=rng.randrange(1 << 30)))
    ops.append(dict(op="usable", seed=rng.randrange(1 << 30)))
    return dict(config=cfg, ops=ops, cls=F.cfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def execute(plan, ctx):
    w = F.FW(ctx, plan["config"])
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        psi0 = w.psi()
        n0 = nla.norm(psi0.ravel())
        if not np.isfinite(n0) or n0 < 1e-6 or n0 > 1e8:
            raise Abandon("degenerate norm %r" % n0)
        k = op["op"]
        if k in EDITS:
            p01.do_edit(w, op, rs, psi0, n0)
        elif k == "usable":
            usable(w, rs)
        else:
            ctx.must("update", lambda: w.s.update())
            ctx.op(k, (w.s.canonical_form, w.s.gauge_fixing))
            globals()["do_" + ("trunc" if k.startswith("trunc") else "auto" if k.startswith("auto") else "expand" if k in ("expand", "expand_more", "y2s") else k)](w, op, rs)
        ctx.log("psi", w.psi())


def usable(w, rs):
    """The object is consistent: caches after update are those of its tensors, and it can be evolved."""
    ctx, s = w.ctx, w.s
    ctx.op("usable")
    psi0 = w.psi()
    ctx.must("update", lambda: s.update())
    w.same_state(psi0, 1e-7, "update-changes-state", norm=1.0, what="update")
    w.check_D()
    w.check_envs(1e-9)
    w.check_canonical(tol=1e-9, strict=w.min_schmidt() > 1e-5)
    obs = w.observations(rs, many=False)
    for name, fn, ref in obs:
        v = ctx.must(name, fn)
        ctx.close(v, ref, 1e-8, "observable", name)
    if w.min_schmidt() > 1e-3:
        psi1 = w.psi()
        h = 1e-5
        v = M.TangentSpace(w.A()).project(M.ham_apply(psi1, w.terms) - w.energy(psi1) * psi1)
        ctx.must("take_step", lambda: s.take_step(h))
        ctx.simtime += h
        d = nla.norm((w.psi() - (psi1 - h * v)).ravel())
        ctx.check(d <= 30 * h ** 2 * max(1.0, nla.norm(v.ravel())) ** 2 / max(1e-3, w.min_schmidt(psi1)) ** 2 + 1e-10, "step-after-change", "Euler step off by %.3g" % d)
        ctx.must("update", lambda: s.update())


def bound_weight(psi, n, keep):
    sv = np.sort(M.schmidt(psi, n) ** 2)[::-1]
    return float(np.sum(sv[keep:]))


def do_trunc(w, op, rs):
    ctx, s, N = w.ctx, w.s, w.N
    k = op["op"]
    psi0 = w.psi()
    D = [int(x) for x in s.D]
    A0 = w.A()
    if k == "trunclarger":
        nd = list(D)
        n = rs.randint(0, N + 1)
        nd[n] += 1
        _, e = ctx.call("truncate", lambda: s.truncate(nd), allow=(AssertionError, ValueError))
        if e is None:
            ctx.check([int(x) for x in s.D] == D, "truncate-grows", "asked for %s, D is now %s" % (nd, list(s.D)))
        w.check_D()
        w.same_state(psi0, 1e-10, "rejected-truncation-changes-state", norm=1.0)
        return
    nd = list(D)
    can = [n for n in range(1, N) if D[n] > 1]
    if k == "trunc1":
        if not can:
            return
        n = can[rs.randint(len(can))]
        nd[n] = rs.randint(1, D[n])
    elif k == "truncm":
        for n in can:
            nd[n] = rs.randint(1, D[n] + 1)
    upd = bool(rs.rand() < 0.4)
    arg = list(nd) if rs.rand() < 0.5 else np.array(nd)
    keep = list(nd)
    ctx.must("truncate", lambda: s.truncate(arg, update=upd), seed=op["seed"])
    ctx.check(list(arg) == keep, "argument-modified", "truncate changed the requested dimensions")
    w.check_D()
    if upd:
        # the update may only reduce dimensions further
        ctx.check(all(int(s.D[n]) <= nd[n] for n in range(N + 1)), "truncate-too-large", "asked for %s, D is %s" % (nd, list(s.D)))
    else:
        ctx.check([int(x) for x in s.D] == nd, "truncate-dimension", "asked for %s, D is %s" % (nd, list(s.D)))
    judge_trunc(w, psi0, D, nd, upd, "truncate")


def judge_trunc(w, psi0, D, nd, upd, what, tol=1e-9):
    """psi0 normalised state before, nd: number of Schmidt vectors kept per bond."""
    ctx, N = w.ctx, w.N
    disc = {n: bound_weight(psi0, n, nd[n]) for n in range(1, N) if nd[n] < D[n]}
    tot = sum(disc.values())
    psi = w.psi()
    nrm = nla.norm(psi.ravel())
    ctx.check(np.isfinite(nrm), what + "-state", "norm %r" % nrm)
    if nrm < 1e-6:
        return
    fid = abs(np.vdot(psi0, psi)) / nrm
    infid = 1 - min(1.0, fid) ** 2
    ctx.check(infid <= 2 * tot + tol, what + "-bound", "infidelity %.3g, discarded weight %.3g (bonds %s)" % (infid, tot, disc))
    if not upd:
        d2 = nla.norm((psi - psi0).ravel()) ** 2
        ctx.check(d2 <= 2 * tot + tol, what + "-bound", "squared distance %.3g, discarded weight %.3g" % (d2, tot))
    big = [n for n in disc if disc[n] > 1e-14]
    if len(disc) == 1 or tot < 1e-12:
        ctx.close(infid, tot, tol, what + "-optimal", "infidelity against discarded weight at bond %s" % list(disc))
        if disc:
            n = list(disc)[0]
            sv = np.sort(M.schmidt(psi0, n))[::-1]
            k = nd[n]
            got = np.sort(M.schmidt(psi / (nrm if upd else 1.0), n))[::-1]
            want = sv[:k] / (nla.norm(sv[:k]) if upd else 1.0)
            kk = max(len(got), len(want))
            ctx.close(np.pad(got, (0, kk - len(got))), np.pad(want, (0, kk - len(want))), 1e-7, what + "-keeps-dominant", "Schmidt values at bond %d" % n)
            if (k >= len(sv) or sv[k - 1] - sv[k] > 1e-3) and tot < 0.9:
                a = int(np.prod(w.q[:n]))
                u, sg, vh = nla.svd(psi0.reshape(a, -1), full_matrices=False)
                best = (u[:, :k] * sg[:k]) @ vh[:k]
                if upd:
                    best = best / nla.norm(best)
                ctx.close(psi.ravel(), best.ravel(), 1e-7, what + "-vector", "state against the best approximation at bond %d" % n)
    ctx.probe(what + ("-single" if len(big) == 1 else "-multi" if big else "-lossless"))


def do_auto(w, op, rs):
    ctx, s, N = w.ctx, w.s, w.N
    k = op["op"]
    psi0 = w.psi()
    D = [int(x) for x in s.D]
    svs = [np.sort(M.schmidt(psi0, n) ** 2)[::-1] if 0 < n < N else np.ones(1) for n in range(N + 1)]
    # a threshold in a gap of the spectra, below the largest value of every bond
    top = min(float(v[0]) for v in svs)
    vals = sorted([float(x) for n in range(1, N) for x in svs[n][:D[n]]] + [1e-20])
    u = rs.rand()
    tol = None
    if u < 0.3:
        tol = s.zero_tol if k == "auto" else None
    if tol is None:
        cand = []
        for a, b in zip(vals, vals[1:]):
            a = max(a, 1e-18)
            if b > 16 * a and b <= top and np.sqrt(a * b) > 1e-13 and (a > 1e-12 or a < 1e-14):
                cand.append(float(np.sqrt(a * b)))
        if not cand:
            return
        tol = cand[rs.randint(len(cand))]
    nd = [1] + [int(np.sum(svs[n][:D[n]] > tol)) for n in range(1, N)] + [1]
    # values which are zero up to rounding are zero
    old = s.zero_tol
    amb = [x for x in vals if 0.3 * tol < x < 3 * tol]
    if amb or (tol < 1e-13):
        # only the rounding-level threshold: just lossless
        nd = None
    if k == "auto":
        upd = bool(rs.rand() < 0.5)
        r = ctx.must("auto_truncate", lambda: s.auto_truncate(update=upd, zero_tol=tol), seed=op["seed"])
        if nd is not None:
            ctx.check(bool(r) == (nd != D), "auto-truncate-return", "returned %r, D %s, expected %s" % (r, D, nd))
        got = [int(x) for x in s.D]
    else:
        upd = True
        after = k != "autoupd_fast"
        s.zero_tol = tol
        try:
            ctx.must("update", lambda: s.update(auto_truncate=True, restore_CF_after_trunc=after), seed=op["seed"])
        finally:
            s.zero_tol = old
        w.check_envs(1e-9)
        ctx.close(nla.norm(w.psi().ravel()), 1.0, 1e-9, "norm", "update(auto_truncate=True)")
        got = [int(x) for x in s.D]
    w.check_D()
    if nd is None:
        ctx.check(all(g <= d for g, d in zip(got, D)), "auto-truncate-grows", "%s -> %s" % (D, got))
        # values close to the threshold: whatever was cut, the state is as close as the weight cut away allows
        judge_trunc(w, psi0, D, got, upd, "auto-truncate", tol=1e-8)
        return
    if upd:
        ctx.check(all(g <= d for g, d in zip(got, nd)), "auto-truncate-dimension", "threshold %.3g: %s, expected %s (spectra %s)" % (tol, got, nd, svs))
        # not truncated beyond what the threshold asks for, except where neighbours force it
        lim = _limits(nd, w.q)
        ctx.check(all(g >= d for g, d in zip(got, lim)), "auto-truncate-dimension", "threshold %.3g: %s, expected %s" % (tol, got, nd))
    else:
        ctx.check(got == nd, "auto-truncate-dimension", "threshold %.3g: %s, expected %s" % (tol, got, nd))
    judge_trunc(w, psi0, D, nd, upd, "auto-truncate")


def _limits(nd, q):
    d = list(nd)
    N = len(q)
    for _ in range(3):
        for n in range(1, N + 1):
            d[n] = min(d[n], d[n - 1] * q[n - 1])
        for n in range(N - 1, -1, -1):
            d[n] = min(d[n], d[n + 1] * q[n])
    return d


def two_site_pieces(A, HPsi):
    """Per bond n=1..N-1: the component of H|psi> with two adjacent sites changed orthogonally to the tangent space."""
    T = M.TangentSpace(A)
    qs, N = T.qs, T.N
    v = HPsi.reshape(qs)
    out = [None] * (N + 1)
    for n in range(N - 1):
        a = int(np.prod(qs[:n]))
        b = int(np.prod(qs[n + 2:]))
        x = v.reshape(a, qs[n] * qs[n + 1], b)
        ql, qr = T.ql[n], T.qr[n + 1]
        y = np.tensordot(ql, np.tensordot(ql.conj().T, x, axes=([1], [0])), axes=([1], [0]))
        y = np.tensordot(np.tensordot(y, qr.conj(), axes=([2], [0])), qr.T, axes=([2], [0]))
        m = y.reshape(a * qs[n], qs[n + 1] * b)
        pl, pr = T.ql[n + 1], T.qr[n]
        m = m - pl @ (pl.conj().T @ m)
        m = m - (m @ pr.conj()) @ pr.T
        out[n + 1] = m
    return T, out


def do_expand(w, op, rs):
    ctx, s, N = w.ctx, w.s, w.N
    k = op["op"]
    if max(int(x) for x in s.D) > 9:
        return
    ms = w.min_schmidt()
    if ms < 0.02:
        ctx.probe("expand-skipped-illconditioned")
        return
    psi0 = w.psi()
    A0 = w.A()
    D = [int(x) for x in s.D]
    E = w.energy(psi0)
    Hp = M.ham_apply(psi0, w.terms)
    T, pieces = two_site_pieces(A0, Hp)
    t1 = T.project(Hp - E * psi0)
    tol = 1e-9 / ms ** 2
    ph = [1.0, 1j, -1j, np.exp(1j * rs.uniform(0, 6))][rs.randint(4)]
    dD = int(rs.choice([0, 1, 1, 2, 16]))
    Dm = int(rs.choice([0, 0, max(D), max(D) + 1, max(1, max(D) - 1), max(D) + 2]))
    sv_tol = 10.0 ** rs.choice([-10, -8, -6])
    if rs.rand() < 0.2:
        sv_tol = 0.05
    if k == "y2s":
        h = 1e-5
        ctx.must("take_step", lambda: s.take_step(h * ph, calc_Y_2s=True), seed=op["seed"])
        ctx.simtime += h
        judge_errors(w, pieces, tol)
        ctx.close(complex(s.eta).real, nla.norm(t1.ravel()), tol, "eta", "take_step(calc_Y_2s)")
        w.check_D()
        ctx.check([int(x) for x in s.D] == D, "dimension-changed", "calc_Y_2s")
        return
    # expected two-site addition
    add = np.zeros_like(psi0)
    expD = list(D)
    amb = False
    for n in range(1, N):
        m = pieces[n]
        u, sv, vh = nla.svd(m, full_matrices=False)
        nz = int(np.sum(sv > sv_tol))
        if np.any((sv > 0.2 * sv_tol) & (sv < 5 * sv_tol)) and sv_tol > 1e-9:
            amb = True
        inc = min(nz, dD)
        if Dm > 0:
            inc = min(inc, max(0, Dm - D[n]))
        if inc < len(sv) and inc > 0 and sv[inc - 1] - sv[inc] < 1e-4 and inc < nz:
            amb = True
        if sv_tol <= 1e-9 and np.any((sv > 1e-13) & (sv < 1e-7)):
            amb = True
        expD[n] += inc
        add = add + ((u[:, :inc] * sv[:inc]) @ vh[:inc]).reshape(psi0.shape)
    if amb:
        ctx.probe("expand-ambiguous")
    errs = []
    for i, h in enumerate((3e-3, 3e-3 / 4)):
        if i:
            restart(w, A0)
        ctx.must("take_step", lambda: s.take_step(h * ph, dynexp=True, dD_max=dD, D_max=Dm, sv_tol=sv_tol), seed=op["seed"])
        ctx.simtime += h
        got = [int(x) for x in s.D]
        w.check_D()
        ctx.check(all(g - d <= dD for g, d in zip(got, D)), "expansion-increment", "%s -> %s with dD_max=%d" % (D, got, dD))
        if Dm > 0:
            ctx.check(all(g <= max(d, Dm) for g, d in zip(got, D)), "expansion-maximum", "%s -> %s with D_max=%d" % (D, got, Dm))
        ctx.check(all(g >= d for g, d in zip(got, D)), "expansion-shrinks", "%s -> %s" % (D, got))
        if not amb:
            ctx.check(got == expD, "expansion-dimension", "%s -> %s, expected %s (dD_max %d, D_max %d, sv_tol %g)" % (D, got, expD, dD, Dm, sv_tol))
        judge_errors(w, pieces, tol)
        ctx.close(complex(s.eta).real, nla.norm(t1.ravel()), tol, "eta", "take_step(dynexp)")
        psi = w.psi()
        ctx.check(np.all(np.isfinite(psi)), "expansion-state", "not finite")
        # change within the old tangent space is the plain step
        d = psi - (psi0 - h * ph * t1)
        # remove what lies in the two-site complement
        if not amb:
            errs.append(nla.norm((d + h * ph * add).ravel()))
        else:
            errs.append(nla.norm(T.project(d)))
    sc = max(1.0, nla.norm(Hp.ravel())) ** 2 / ms ** 2
    ctx.check(errs[1] <= 2.0 * errs[0] / 16 + 1e-11 / ms, "expansion-first-order",
              "deviations %s from the first-order evolution (+ dominant missing component) for steps h, h/4" % errs)
    ctx.check(errs[0] <= 30 * (3e-3) ** 2 * sc + 1e-10, "expansion-first-order", "deviation %.3g" % errs[0])
    ctx.probe("expanded" if got != D else "not-expanded")
    ctx.must("update", lambda: s.update())
    w.same_state(psi, 1e-7, "update-changes-state", norm=1.0, what="update after expansion")


def judge_errors(w, pieces, tol):
    ctx, s = w.ctx, w.s
    tot = 0.0
    for n in range(1, w.N):
        e = nla.norm(pieces[n]) ** 2
        tot += e
        ctx.close(complex(s.etaBB_sq[n]), e, tol, "two-site-error", "etaBB_sq[%d]" % n)
    ctx.close(complex(s.etaBB), np.sqrt(tot), max(tol, 1e-7), "two-site-error", "etaBB")


def restart(w, A0):
    mine = [a.copy() for a in A0]
    w.ctx.must("set_state_from_tensors", lambda: w.s.set_state_from_tensors([None] + mine, do_update=False))
    w.ctx.must("update", lambda: w.s.update(restore_CF=False, normalize=False))


def too_big(w):
    return w.sites == 3 and max(a * b for a, b in zip(w.q, w.q[1:])) > 6


def dense_ham(w):
    return [None] + [np.zeros(tuple(w.q[n:n + w.sites]) * 2, dtype=complex) if t is None else t for n, t in enumerate(w.hterms)]


def do_split2(w, op, rs):
    """Two-site split step: bounded dimensions, error of second order or better against the exact evolution when nothing is cut."""
    from evoMPS.split_step import evolve_split
    ctx, s, N = w.ctx, w.s, w.N
    if s.canonical_form != "right" or too_big(w):
        return
    D = [int(x) for x in s.D]
    psi0 = w.psi()
    A0 = w.A()
    real = rs.rand() < 0.5
    switch = bool(rs.rand() < 0.25)
    nocut = rs.rand() < 0.6
    Dm = 64 if nocut else int(rs.randint(1, 5))
    if switch and Dm < max(D):
        Dm = max(D)
    smin = 1e-13 if nocut else float(rs.choice([1e-13, 1e-3]))
    ham = dense_ham(w)
    wn = sum(nla.norm(np.asarray(t).reshape(int(np.prod(t.shape[:t.ndim // 2])), -1), 2) for _, _, t in w.terms)
    if wn < 1e-3:
        return
    steps = int(rs.randint(1, 3))
    h = 0.1 / wn
    dt = h * (1j if real else 1.0)
    log = []

    def cb(mps, i, **kw):
        log.append((i, [int(x) for x in mps.D], np.array(kw["truncerr_lr"]), np.array(kw["truncerr_rl"])))

    def run(dtau, n):
        del log[:]
        r = ctx.must("evolve_split", lambda: evolve_split(s, ham, w.sites, dtau, n, two_site=True, D_max=Dm, min_schmidt=smin, switch_to_1site=switch,
                                                          expm_max_steps=200, print_progress=False, cb_func=cb), seed=op["seed"])
        ctx.simtime += abs(dtau) * n
        ctx.check(r is s, "evolve-split-return", "evolve_split does not return the state it was given")
        ctx.check([x[0] for x in log] == list(range(n)), "evolve-split-callback", "observer saw steps %s" % [x[0] for x in log])
        w.check_D()
        for x in log:
            ctx.check(all(1 <= d <= max(1, Dm) for d in x[1][1:-1]), "expansion-maximum", "D=%s with D_max=%d" % (x[1], Dm))
    run(dt, steps)
    psi = w.psi()
    terr = np.concatenate([np.concatenate([x[2], x[3]]) for x in log])
    terr = terr[np.isfinite(terr)]
    ctx.check(np.isfinite(nla.norm(psi.ravel())), "evolve-split-state", "not finite")
    if not nocut:
        for n in range(1, N):
            sv = np.sort(M.schmidt(psi / nla.norm(psi.ravel()), n))[::-1]
            kept = int(s.D[n])
            # bonds are at most as large as the number of values above the threshold asked for (plus neighbours' later changes)
            ctx.check(kept <= Dm, "expansion-maximum", "bond %d" % n)
        ctx.probe("split2-cut" if np.any(terr > 1e-9) else "split2-uncut")
    if nocut and real:
        # every substep is generated by the energy itself, so energy is conserved exactly
        E0, E1 = w.energy(psi0), w.energy(psi)
        ctx.close(E1, E0, 1e-8, "split2-energy", "energy after a real-time two-site step without truncation")
    if nocut and not real:
        ctx.check(w.energy(psi) <= w.energy(psi0) + 1e-9, "energy-rises", "imaginary-time two-site step without truncation")
    if nocut and w.sites == 3 and all(D[n] == F.maxD(w.q, n) for n in range(1, N)):
        wv, U = nla.eigh(M.ham_dense(w.terms, w.q))
        ref = U @ (np.exp(-dt * steps * wv) * (U.conj().T @ psi0.ravel()))
        e0 = M.ray_dist(ref / nla.norm(ref), psi)
        ctx.check(e0 <= 1e-8, "split-not-exact", "two-site step: error %.3g at maximal bond dimension" % e0)
    if nocut and not switch and w.sites == 2:
        # nothing is cut, and two-site changes are all that a nearest-neighbour model makes: converges to the exact evolution
        Hd = M.ham_dense(w.terms, w.q)
        wv, U = nla.eigh(Hd)

        def err(hh, n):
            ref = U @ (np.exp(-(1j if real else 1.0) * hh * n * wv) * (U.conj().T @ psi0.ravel()))
            return M.ray_dist(ref / nla.norm(ref), w.psi())
        e0 = err(h, steps)
        maximal = all(D[n] == F.maxD(w.q, n) for n in range(1, N))
        if maximal:
            ctx.check(e0 <= 1e-8, "split-not-exact", "two-site step: error %.3g at maximal bond dimension" % e0)
        restart(w, A0)
        run(dt / 4, 1)
        e1 = err(h / 4, 1)
        restart(w, A0)
        run(dt / 16, 1)
        e2 = err(h / 16, 1)
        ctx.check(e1 <= 2e-9 or e2 <= 2 * e1 / 16, "split2-order", "two-site step errors %.3g, %.3g for h/4, h/16" % (e1, e2))
        ctx.check(e0 <= steps * 2 * (0.1) ** 2, "split2-error", "two-site step error %.3g" % e0)
        ctx.probe("split2-exactness")
        psi = w.psi()
    if w.sites == 3 or switch:
        e = M.inner(psi, psi)
        ctx.check(abs(M.inner(psi0, psi)) ** 2 / abs(e) >= 1 - max(1.0, 3 * np.sum(terr ** 2)) if not nocut else abs(M.inner(psi0, psi)) ** 2 / abs(e) > 0.8,
                  "split2-error", "a small step moved the state far")
    ctx.must("update", lambda: s.update())
    w.same_state(psi, 1e-7, "update-changes-state", norm=1.0, what="update after a two-site step")
    ctx.close(s.H_expect, w.energy(), 1e-9, "energy", "H_expect")


def do_dmrg2(w, op, rs):
    from evoMPS.split_step import evolve_split
    ctx, s, N = w.ctx, w.s, w.N
    if s.canonical_form != "right" or too_big(w):
        return
    psi0 = w.psi()
    E0 = w.energy(psi0)
    two = bool(rs.rand() < 0.7)
    Dm = 32 if rs.rand() < 0.6 else int(rs.randint(1, 5))
    ham = dense_ham(w)
    steps = int(rs.randint(1, 3))
    ctx.must("evolve_split", lambda: evolve_split(s, ham, w.sites, 1.0, steps, DMRG=True, two_site=two, D_max=Dm, min_schmidt=1e-12, print_progress=False),
             seed=op["seed"])
    w.check_D()
    psi = w.psi()
    E1 = w.energy(psi)
    if two:
        ctx.check(all(int(d) <= max(1, Dm) for d in s.D), "expansion-maximum", "D=%s with D_max=%d" % (list(s.D), Dm))
    if not two or Dm == 32:
        ctx.check(E1 <= E0 + 1e-9 * max(1, abs(E0)), "energy-rises", "sweep: %.15g -> %.15g" % (E0, E1))
    Eg = nla.eigvalsh(M.ham_dense(w.terms, w.q))[0]
    ctx.check(E1 >= Eg - 1e-9 * max(1, abs(Eg)), "energy-below-ground", "%r < %r" % (E1, Eg))
    ctx.must("update", lambda: s.update())
    w.same_state(psi, 1e-7, "update-changes-state", norm=1.0, what="update after sweeps")
    ctx.close(s.H_expect, E1, 1e-8, "energy", "H_expect after sweeps")
