"""P15: a nonuniform window between two infinite bulks behaves as part of one infinite state."""
import copy

import numpy as np
import numpy.linalg as nla

from .. import model as M
from .. import sandwich as SD
from ..core import Abandon
from ..finite import rmat, unitary
from .. import seams

shrink = SD.shrink_scfg
TOL = 1e-8


def gen(rng, tier, idx):
    cfg = SD.gen_scfg(rng)
    ops = []
    if rng.random() < 0.9:
        ops.append(upd(rng))
    for _ in range(rng.randint(2, 5)):
        k = rng.choice(["grow_left", "grow_right", "grow_left", "grow_right", "apply", "edit", "save", "save", "overlap", "step", "step", "rk4",
                        "dynexp", "order", "copy"])
        d = dict(op=k, seed=rng.randrange(1 << 30), m=rng.choice([1, 1, 2]), re=rng.random() < 0.5)
        ops.append(d)
        if rng.random() < 0.75:
            ops.append(upd(rng))
        if rng.random() < 0.5:
            ops.append(dict(op="observe", seed=rng.randrange(1 << 30)))
    ops.append(upd(rng))
    ops.append(dict(op="observe", seed=rng.randrange(1 << 30)))
    return dict(config=cfg, ops=ops, cls=SD.scfg_class(cfg), garbage=rng.choice(["nan", "nan", "noise", "huge", None]))


def upd(rng):
    d = dict(op="update", seed=rng.randrange(1 << 30), how=rng.choice(["cf", "cf", "cf", "cf", "nocf", "raw"]), faults=[])
    if rng.random() < 0.15:
        d["faults"] = [dict(site="eigs", kind=rng.choice(["noconv", "unlucky", "noconv_partial"]), nth=rng.randint(0, 3), count=rng.randint(1, 2), frac=0.5)]
    return d


def execute(plan, ctx):
    cfg = plan["config"]
    w = SD.SW(ctx, cfg)
    st = dict(fresh=cfg["kind"] == "tensors" and w.is_tdvp, canon=False, bulk=False, exact_bulk=cfg["kind"] == "ident")
    ref = w.sand().rdms()
    if st["fresh"]:
        if w.is_tdvp:
            observe(w, np.random.RandomState(cfg["seed"] % 1000), "new object")
    size(w, 1e3)
    for op in plan["ops"]:
        rs = np.random.RandomState(op["seed"])
        k = op["op"]
        ctx.op(k, (cfg["kind"], cfg["cls"], op.get("how"), op.get("m"), op.get("re"), st["canon"]))
        if k == "update":
            update(w, op, st)
        elif k == "observe":
            if st["fresh"]:
                observe(w, rs, "")
        else:
            globals()["do_" + k](w, op, rs, st)
        ctx.log("A", *w.A())
    del ref


def size(w, bound):
    w.ctx.check(all(np.all(np.isfinite(a)) for a in w.A()), "state", "not finite")


def well(w):
    """Conditioning of the state; window and bulks."""
    sd = w.sand()
    ms = min(w.min_schmidt(sd), *[float(np.sqrt(max(0, nla.eigvalsh((e + e.conj().T) / 2)[0]))) for e in (sd.l0, sd.rN)])
    return ms


# ------------------------------------------------------------------------------------------------ updates
def update(w, op, st):
    ctx, s = w.ctx, w.s
    sd0 = w.sand()
    ref = sd0.rdms()
    how = op["how"]
    ms = well(w)
    if ms < 1e-5:
        raise Abandon("ill-conditioned")
    tol = TOL + 1e-13 / ms ** 2
    how = op["how"]
    if how != "cf" and not st["bulk"] and w.cfg["kind"] != "tensors":
        how = "cf"
    if how == "cf":
        fn = lambda: s.update()
    elif how == "nocf":
        fn = lambda: s.update(restore_CF=False)
    else:
        if abs(sd0.norm2 - 1) > 1e-2 or not st["fresh"] and not st["canon"]:
            fn = lambda: s.update(restore_CF=False)
        else:
            fn = lambda: s.update(restore_CF=False, normalize=False)
    N, D = s.N, [int(d) for d in s.D]
    bulks = None if how == "cf" else [a.copy() for a in list(s.uni_l.A) + list(s.uni_r.A)]
    faults = op["faults"] if w.cfg["route"] == "arpack" else []
    _, e = ctx.call("update", fn, faults=faults, seed=op["seed"], ret_exc=True)
    if e is not None:
        ctx.probe("update-failed")
        w.same_rdms(ref, tol, "failed-update-changes-state", "failed update")
        ctx.must("update", lambda: s.update(), seed=op["seed"] + 1)
        how = "cf"
        bulks = None
    w.same_rdms(ref, tol, "update-changes-state", "update(%s)" % how)
    ctx.check(s.N == N and [int(d) for d in s.D] == D, "update-dimensions", "D %s -> %s" % (D, list(s.D)))
    shapes(w)
    if bulks is not None:
        for a, b in zip(bulks, list(s.uni_l.A) + list(s.uni_r.A)):
            ctx.check(np.array_equal(a, b), "bulk-changed", "update without canonical form changed a bulk tensor")
    st["fresh"] = True
    st["bulk"] = True
    if how == "cf":
        st["canon"] = True
        canonical(w, tol)
    elif how == "nocf":
        ctx.close(mat(w.s.l[s.N_centre - 1], w.s.r[s.N_centre - 1]), 1.0, 1e-9, "norm", "norm after update(restore_CF=False)")
    envs(w, tol)


def mat(l, r):
    return np.sum(np.asarray(l) * np.asarray(r).T)


def shapes(w):
    ctx, s = w.ctx, w.s
    ctx.check(int(s.D[0]) == s.uni_l.D and int(s.D[s.N]) == s.uni_r.D, "update-dimensions", "edges: %s" % list(s.D))
    for n in range(1, s.N + 1):
        ctx.check(tuple(s.A[n].shape) == (w.q, int(s.D[n - 1]), int(s.D[n])), "update-dimensions", "A[%d]: %s, D %s" % (n, s.A[n].shape, list(s.D)))


def envs(w, tol):
    """l and r (any position) belong to the tensors; for tdvp also the energies."""
    ctx, s = w.ctx, w.s
    sd = w.sand()
    nrm = None
    for n in range(-1, s.N + 3):
        l, r = np.asarray(ctx.must("get_l", lambda n=n: s.get_l(n))), np.asarray(ctx.must("get_r", lambda n=n: s.get_r(n)))
        L, R = sd.l(n), sd.r(n)
        for g, x, what in ((l.T, L, "l"), (r, R, "r")):
            c = nla.norm(g) / nla.norm(x)
            ctx.check(np.isfinite(c) and c > 1e-12, "environment", "%s at %d" % (what, n))
            ctx.close(g / c, x, tol * 10, "environment", "%s at position %d (up to a factor)" % (what, n), scale=max(1.0, nla.norm(x)))
        x = mat(l, r)
        nrm = x if nrm is None else nrm
    if w.is_tdvp and st_norm_ok(nrm):
        energies(w, sd, tol)


def st_norm_ok(x):
    return abs(x - 1) < 1e-6


def energies(w, sd, tol):
    ctx, s = w.ctx, w.s
    terms = w.terms(sd)
    psi = sd.psi()
    psi = psi / nla.norm(psi.ravel())
    E = M.inner(psi, M.ham_apply(psi, terms)).real
    wn = 1 + sum(nla.norm(t.ravel()) for _, _, t in terms)
    ctx.close(complex(s.dH_expect), E - (s.N + w.k - 1) * sd.eL.real, tol * wn, "energy", "dH_expect")
    for n in range(0, s.N + 1):
        ctx.close(complex(s.h_expect[n]), sd.expect(w.hC[n], n, w.k), tol * wn, "energy", "h_expect[%d]" % n)


def canonical(w, tol):
    ctx, s = w.ctx, w.s
    nc = s.N_centre
    ctx.check(1 <= nc <= s.N, "centre", "N_centre %r of %d" % (nc, s.N))
    sd = w.sand()
    A = [np.asarray(s.A[n]) for n in range(1, s.N + 1)]
    tl = 10 * tol
    for n in range(1, nc):
        ctx.close(np.einsum('sab,sac->bc', A[n - 1].conj(), A[n - 1]), np.eye(A[n - 1].shape[2]), tl, "canonical", "A[%d] left-orthonormal" % n)
        ctx.close(np.asarray(s.l[n]), np.eye(A[n - 1].shape[2]), tl, "canonical", "l[%d]" % n)
    for n in range(nc + 1, s.N + 1):
        ctx.close(np.einsum('sab,scb->ac', A[n - 1], A[n - 1].conj()), np.eye(A[n - 1].shape[1]), tl, "canonical", "A[%d] right-orthonormal" % n)
        ctx.close(np.asarray(s.r[n - 1]), np.eye(A[n - 1].shape[1]), tl, "canonical", "r[%d]" % (n - 1))
    ctx.close(np.asarray(s.l[0]), np.eye(int(s.D[0])), tl, "canonical", "l[0]")
    ctx.close(np.asarray(s.r[s.N]), np.eye(int(s.D[s.N])), tl, "canonical", "r[N]")
    for n in range(0, nc):
        d = np.asarray(s.r[n])
        ctx.close(d - np.diag(np.diag(d)), np.zeros_like(d), tl, "canonical", "r[%d] diagonal" % n)
        ctx.close(np.trace(d), 1.0, tl, "canonical", "tr r[%d]" % n)
    for n in range(nc, s.N + 1):
        d = np.asarray(s.l[n])
        ctx.close(d - np.diag(np.diag(d)), np.zeros_like(d), tl, "canonical", "l[%d] diagonal" % n)
        ctx.close(np.trace(d), 1.0, tl, "canonical", "tr l[%d]" % n)
    del sd


def observe(w, rs, what):
    ctx = w.ctx
    ms = well(w)
    tol = TOL + 1e-13 / max(ms, 1e-6) ** 2
    obs = w.observations(rs, many=rs.rand() < 0.4)
    for name, fn, ref in obs:
        v = ctx.must(name, fn)
        ctx.close(v, ref, tol * (30 if name.startswith(("dH", "entropy")) else 3), "observable-" + name.split("(")[0], what + " " + name)


# ------------------------------------------------------------------------------------------------ growing, copies, files
def do_grow_left(w, op, rs, st):
    grow(w, op["m"], 0, st)


def do_grow_right(w, op, rs, st):
    grow(w, 0, op["m"], st)


def grow(w, ml, mr, st):
    ctx, s = w.ctx, w.s
    if s.N + ml * s.uni_l.L + mr * s.uni_r.L > (9 if w.q == 2 else 6):
        return
    if w.is_tdvp and w.hcfg["callable"] and w.hcfg["window"] != "same" and w.cfg["kind"] == "tensors":
        return                      # (a user's own function of the site number would have to be replaced as well)
    N = s.N
    pad = 2 + 4
    ref = w.sand().rdms(pad=pad)
    counters = (int(s.grown_left), int(s.grown_right))
    ddE = complex(s.dH_expect) if w.is_tdvp and st["fresh"] else None
    if ml:
        ctx.must("grow_left", lambda: s.grow_left(ml))
    else:
        ctx.must("grow_right", lambda: s.grow_right(mr))
    a, b = ml * s.uni_l.L, mr * s.uni_r.L
    ctx.check(s.N == N + a + b, "grow", "N %d -> %d (ml %d, mr %d)" % (N, s.N, ml, mr))
    ctx.check((int(s.grown_left), int(s.grown_right)) == (counters[0] + a, counters[1] + b), "grow", "counters")
    w.grown(a, b)
    shapes(w)
    sd = w.sand()
    got = sd.rdms(pad=pad)
    # got[i] starts at site i+1-pad of the new numbering = i+1-pad-a of the old one
    for i, g in enumerate(got):
        j = i - a
        if 0 <= j < len(ref):
            ctx.close(g, ref[j], TOL, "grow-changes-state", "density matrix after growing (%d, %d), window site %d" % (a, b, i + 1 - pad))
    st["fresh"] = False
    if ddE is not None and st_norm_ok(sd.norm2 / abs(sd.norm2)):
        ctx.must("update", lambda: s.update())
        w.same_rdms(got, 1e-7, "update-changes-state", "update after growing", pad=pad)
        if b == 0 or np.array_equal(w.hL, w.hR):
            w.terms(sd)
            same_bulk = np.allclose(sd.eL, sd.eR, atol=1e-9)
            if b == 0 or same_bulk:
                ctx.close(complex(s.dH_expect), ddE, 1e-6, "grow-energy", "excess energy before and after growing")
        st.update(fresh=True, canon=True, bulk=True)


def do_copy(w, op, rs, st):
    """Going on with a deep copy makes no difference."""
    w.s = w.ctx.must("deepcopy", lambda: copy.deepcopy(w.s))


def do_save(w, op, rs, st):
    ctx, s, cfg = w.ctx, w.s, w.cfg
    if not st["bulk"] and cfg["kind"] != "tensors":
        return
    ref = w.sand().rdms()
    D = [int(d) for d in s.D]
    path = "/simdisk/w%d.npy" % rs.randint(100)
    data = {"t": 3, "x": np.arange(3)}
    ctx.must("save_state", lambda: s.save_state(path, data))
    w.same_rdms(ref, 0.0, "save-changes-state", "save_state")
    if cfg["cls"] == "mps" and rs.rand() < 0.4:
        from evoMPS.mps_sandwich import EvoMPS_MPS_Sandwich
        t = ctx.must("from_file", lambda: EvoMPS_MPS_Sandwich.from_file(path))
        w.s = t
        w.same_rdms(ref, TOL, "reload-changes-state", "from_file")
        st.update(fresh=True, canon=False, bulk=True)
        return
    back = None
    if op["re"]:
        # the object itself, after it has gone astray
        t = s
        for n in range(1, t.N + 1):
            t.A[n] = t.A[n] + 0.2 * rmat(rs, t.A[n].shape[0] * t.A[n].shape[1], t.A[n].shape[2]).reshape(t.A[n].shape)
        if rs.rand() < 0.5:
            ctx.must("update", lambda: t.update())
    else:
        # a new object, made as at the beginning of the run; it has the original length
        back = SD.SW(ctx, dict(cfg, seed=cfg["seed"]))
        t = back.s
        if t.uni_l.D != s.uni_l.D:
            return
    grow_needed = t.N != s.N
    if grow_needed:
        v, e = ctx.call("load_state", lambda: t.load_state(path), ret_exc=True, allow=(ValueError,))
        ctx.check(t.N == cfg["N"], "load", "load without autogrow changed N")
        rl, rr = int(s.grown_left), int(s.grown_right)
    u = ctx.must("load_state", lambda: t.load_state(path, autogrow=True) if grow_needed else t.load_state(path), seed=op["seed"])
    ctx.check(isinstance(u, dict) and u.get("t") == 3 and np.array_equal(u["x"], np.arange(3)), "load-userdata", repr(u))
    w.s = t
    ctx.check(t.N == s.N, "load", "N %d after loading a state of %d sites (autogrow)" % (t.N, s.N))
    ctx.check([int(d) for d in t.D[:t.N + 1]] == D[:t.N + 1], "load", "D %s after loading %s" % (list(t.D), D))
    if grow_needed:
        ctx.check((int(t.grown_left), int(t.grown_right)) == (rl, rr), "load", "grown counters")
        ctx.probe("autogrow")
    w.same_rdms(ref, 1e-7, "reload-changes-state", "load_state (%s)" % ("same object" if op["re"] else "new object"))
    shapes(w)
    if w.is_tdvp:
        w.route(t.uni_l)
        w.route(t.uni_r)
        if grow_needed is False and back is not None and not w.hcfg["callable"]:
            pass
    st.update(fresh=True, canon=True, bulk=True)
    envs(w, 1e-7)


# ------------------------------------------------------------------------------------------------ local changes
def do_apply(w, op, rs, st):
    ctx, s = w.ctx, w.s
    if not st["bulk"]:
        return
    n = rs.randint(1, s.N + 1)
    o = rmat(rs, w.q) + 0.3 * np.eye(w.q)
    if op["re"]:
        o = unitary(rs, w.q)
    keep = o.copy()
    sd = w.sand()
    want = copy.deepcopy(sd)
    want.AC[n - 1] = np.einsum('st,tab->sab', o, want.AC[n - 1])
    want = SD.Sand(want.AL, want.AC, want.AR)
    ref = want.rdms()
    f = (lambda a, b: keep[int(a), int(b)]) if rs.rand() < 0.3 else o
    upd_ = rs.rand() < 0.6
    bulk = [a.copy() for a in list(s.uni_l.A) + list(s.uni_r.A)] if not upd_ else None
    ctx.must("apply_op_1s", lambda: s.apply_op_1s(f, n, do_update=upd_), seed=op["seed"])
    ctx.check(np.array_equal(o, keep), "argument-modified", "apply_op_1s")
    w.same_rdms(ref, 1e-7, "local-change", "apply_op_1s on site %d" % n)
    if bulk is not None:
        for a, b in zip(bulk, list(s.uni_l.A) + list(s.uni_r.A)):
            ctx.check(np.array_equal(a, b), "bulk-changed", "apply_op_1s")
    st["fresh"], st["canon"], st["exact_bulk"] = upd_, upd_, False
    if upd_:
        canonical(w, 1e-8)
        envs(w, 1e-7)
        # far from the site, where nothing has happened, expectation values stay (unitary operators)
        observe(w, rs, "after apply_op_1s")


def do_edit(w, op, rs, st):
    s = w.s
    n = rs.randint(1, s.N + 1)
    s.A[n] = s.A[n] + 0.25 * rmat(rs, w.q * s.A[n].shape[1], s.A[n].shape[2]).reshape(s.A[n].shape)
    st["fresh"] = st["canon"] = st["exact_bulk"] = False


def do_overlap(w, op, rs, st):
    """|<psi|U psi>| is the expectation value of U, wherever it acts and however the second state is gauged."""
    ctx, s = w.ctx, w.s
    if s.uni_l.D != s.uni_r.D and rs.rand() < 0.0:
        return
    if not st["fresh"]:
        ctx.must("update", lambda: s.update())
        st.update(fresh=True, canon=True, bulk=True)
    if well(w) < 1e-3:
        return
    t = copy.deepcopy(s)
    n = rs.randint(1, s.N + 1)
    o = unitary(rs, w.q)
    sd = w.sand()
    ex = sd.expect(o, n, 1)
    a = ctx.must("overlap", lambda: s.overlap(copy.deepcopy(s)), seed=op["seed"])
    ctx.close(abs(a), 1.0, 1e-6, "overlap", "with a copy of itself")
    ctx.must("apply_op_1s", lambda: t.apply_op_1s(o, n, do_update=op["re"]), seed=op["seed"])
    A0, B0 = w.A(), [np.array(x) for x in list(t.uni_l.A) + [t.A[m] for m in range(1, t.N + 1)] + list(t.uni_r.A)]
    for x, y, what in ((s, t, "<psi|U psi>"), (t, s, "<U psi|psi>")):
        v = ctx.must("overlap", lambda: x.overlap(y), seed=op["seed"])
        ctx.check(v is not None, "overlap", "%s gave None" % what)
        ctx.close(abs(v), abs(ex), 1e-6, "overlap", what)
    A1, B1 = w.A(), [np.array(x) for x in list(t.uni_l.A) + [t.A[m] for m in range(1, t.N + 1)] + list(t.uni_r.A)]
    ctx.check(all(np.array_equal(x, y) for x, y in zip(A0 + B0, A1 + B1)), "overlap-changes-state", "overlap changed a tensor")


# ------------------------------------------------------------------------------------------------ steps
def ready(w, st, seed):
    if not w.is_tdvp:
        return None
    ctx, s = w.ctx, w.s
    if not (st["fresh"] and st["canon"]):
        if well(w) < 1e-4:
            return None
        ctx.must("update", lambda: s.update(), seed=seed)
        st.update(fresh=True, canon=True, bulk=True)
    ms = well(w)
    if ms < 1e-2 or int(np.prod([w.q] * s.N)) * int(s.D[0]) * int(s.D[s.N]) > 4000:
        ctx.probe("step-skipped")
        return None
    sd = w.sand()
    psi = sd.psi()
    terms = w.terms(sd)
    Hp = M.ham_apply(psi, terms)
    E = M.inner(psi, Hp).real
    T = SD.WindowTangent(sd.tensors())
    t1 = T.project(Hp - E * psi)
    wn = 1 + sum(nla.norm(x.ravel()) for _, _, x in terms)
    return dict(ms=ms, sd=sd, psi=psi, terms=terms, E=E, T=T, t1=t1, Hp=Hp, wn=wn, tol=1e-9 * wn / ms ** 2)


def phase(op, rs):
    return [1.0, 1j, -1j, np.exp(1j * rs.uniform(0.2, 1.3))][rs.randint(4)]


def tangent(w, op, rs, g, B):
    ctx, s = w.ctx, w.s
    ctx.check(len(B) == s.N + 1, "tangent", "calc_B gave %d entries" % len(B))
    A = [np.array(s.A[n]) for n in range(1, s.N + 1)]
    tot = np.zeros_like(g["psi"])
    for n in range(1, s.N + 1):
        if B[n] is not None:
            X = list(A)
            X[n - 1] = np.asarray(B[n])
            v = g["sd"].scale * M.vec_from_tensors(g["sd"].tensors(X))
            ctx.close(complex(s.eta_sq[n]), nla.norm(v.ravel()) ** 2, g["tol"], "eta", "eta_sq[%d]" % n)
            tot = tot + v
        else:
            ctx.close(complex(s.eta_sq[n]), 0.0, 1e-12, "eta", "eta_sq[%d] without B" % n)
    ctx.close(tot, g["t1"], g["tol"], "tangent", "calc_B: tangent vector of the window")
    ctx.close(complex(s.eta), nla.norm(g["t1"].ravel()), 10 * g["tol"] + 1e-7, "eta", "eta")


def do_step(w, op, rs, st):
    ctx, s = w.ctx, w.s
    g = ready(w, st, op["seed"])
    if g is None:
        return
    bulk = [a.copy() for a in list(s.uni_l.A) + list(s.uni_r.A)]
    keepA = w.A()
    B = ctx.must("calc_B", lambda: s.calc_B(), seed=op["seed"])
    ctx.check(all(np.array_equal(a, b) for a, b in zip(keepA, w.A())), "calc_B-changes-state", "tensors")
    tangent(w, op, rs, g, B)
    if w.cfg["kind"] == "ident" and st.get("exact_bulk") and w.hcfg["window"] == "same" and s.N % s.uni_l.L == 0:
        # away from the centre the window moves exactly as its bulk does
        u = copy.deepcopy(s.uni_l)
        ctx.must("uniform update", lambda: u.update())
        ctx.must("uniform calc_B", lambda: u.calc_B())
        L = u.L
        for n in range(1, s.N + 1):
            if n > s.N_centre or (n < s.N_centre and L == 1):
                ctx.close(complex(s.eta_sq[n]), complex(u.eta_sq[(n - 1) % L]), g["tol"] * 10, "bulk-evolution", "eta_sq[%d] of a window identical to its bulk" % n)
        if (s.N + w.k - 1) % L == 0:
            ctx.close(complex(s.dH_expect), 0.0, g["tol"] * 10, "bulk-evolution", "excess energy of a window identical to its bulk")
        ctx.close(complex(u.h_expect), g["sd"].eL, 1e-8 * g["wn"], "bulk-evolution", "bulk energy density")
        ctx.probe("as-bulk")
    if w.cfg.get("parent") and st["exact_bulk"]:
        stationary(w, op, rs, g)
        return
    ph = phase(op, rs)
    errs = []
    A0 = [np.array(s.A[n]) for n in range(1, s.N + 1)]
    for i, h in enumerate((4e-3, 1e-3)):
        if i:
            for n in range(1, s.N + 1):
                s.A[n] = A0[n - 1].copy()
        dt = ph * h
        B = ctx.must("calc_B", lambda: s.calc_B(), seed=op["seed"])
        keep = [None if b is None else np.array(b) for b in B]
        if op["re"]:
            ctx.must("take_step", lambda: s.take_step(dt, B=B), seed=op["seed"])
            for n, b in enumerate(B):
                ctx.check((b is None) == (keep[n] is None) and (b is None or np.array_equal(b, keep[n])), "argument-modified", "take_step changed B[%d]" % n)
        else:
            ctx.must("take_step", lambda: s.take_step(dt), seed=op["seed"])
        after = g["sd"].scale * M.vec_from_tensors(g["sd"].tensors([np.asarray(s.A[n]) for n in range(1, s.N + 1)]))
        errs.append(nla.norm((after - (g["psi"] - dt * g["t1"])).ravel()))
        ctx.simtime += h
    for a, b in zip(bulk, list(s.uni_l.A) + list(s.uni_r.A)):
        ctx.check(np.array_equal(a, b), "bulk-changed", "take_step changed a bulk tensor")
    sc = (1 + nla.norm(g["Hp"].ravel())) ** 2 / g["ms"] ** 2
    ctx.check(errs[1] <= 2.0 * errs[0] / 16 + 1e-10 / g["ms"], "step-first-order", "deviations %s from psi - dtau P(H-E)psi for steps 4e-3, 1e-3" % errs)
    ctx.check(errs[0] <= 30 * (4e-3) ** 2 * sc + 1e-9, "step-first-order", "deviation %.3g" % errs[0])
    st["fresh"] = st["canon"] = False
    st["exact_bulk"] = False


def stationary(w, op, rs, g):
    """The bulk is an exact ground state (of a parent Hamiltonian): a window identical to it must not move at all."""
    ctx, s = w.ctx, w.s
    ctx.probe("stationary")
    ctx.close(complex(s.eta), 0.0, 1e-6, "stationary", "eta of an exact ground state")
    ref = g["sd"].rdms()
    ph = phase(op, rs)
    for how in ("euler", "rk4", "euler"):
        if how == "euler":
            ctx.must("take_step", lambda: s.take_step(0.1 * ph), seed=op["seed"])
        else:
            ctx.must("take_step_RK4", lambda: s.take_step_RK4(0.1 * ph), seed=op["seed"])
        ctx.must("update", lambda: s.update(), seed=op["seed"])
        ctx.close(complex(s.dH_expect), 0.0, 1e-6, "stationary", "excess energy after a %s step" % how)
        w.same_rdms(ref, 1e-6, "stationary", "%s step of an exact ground state" % how)
        ctx.simtime += 0.1


def do_rk4(w, op, rs, st):
    ctx, s = w.ctx, w.s
    g = ready(w, st, op["seed"])
    if g is None or g["ms"] < 0.03:
        return
    bulk = [a.copy() for a in list(s.uni_l.A) + list(s.uni_r.A)]
    flow = SD.WindowFlow(g["terms"], [1] + [int(d) for d in s.D[:s.N + 1]] + [1])
    ph = phase(op, rs)
    h = min(0.15, 4 * g["ms"]) / nla.norm(g["Hp"].ravel() - g["E"] * g["psi"].ravel() + 1e-3) * 0.5
    h = min(h, 0.5 / g["wn"] * 4)
    ref = flow.rk4(g["psi"], ph * h, 8)
    ref1 = flow.rk4(g["psi"], ph * h, 4)
    A0 = [np.array(s.A[n]) for n in range(1, s.N + 1)]

    def run(steps):
        for n in range(1, s.N + 1):
            s.A[n] = A0[n - 1].copy()
        ctx.must("update", lambda: s.update(restore_CF=False, normalize=False), seed=op["seed"])
        for _ in range(steps):
            if op["re"]:
                B = ctx.must("calc_B", lambda: s.calc_B())
                keep = [None if b is None else np.array(b) for b in B]
                ctx.must("take_step_RK4", lambda: s.take_step_RK4(ph * h / steps, B_i=B), seed=op["seed"])
                for n, b in enumerate(B):
                    ctx.check((b is None) == (keep[n] is None) and (b is None or np.array_equal(b, keep[n])), "argument-modified", "take_step_RK4 changed B_i[%d]" % n)
            else:
                ctx.must("take_step_RK4", lambda: s.take_step_RK4(ph * h / steps), seed=op["seed"])
            ctx.must("update", lambda: s.update(restore_CF=False, normalize=True), seed=op["seed"])
        v = M.vec_from_tensors(g["sd"].tensors([np.asarray(s.A[n]) for n in range(1, s.N + 1)]))
        return M.ray_dist(v, ref)
    e1 = run(1)
    e4 = run(4)
    fl = 1e-10 / g["ms"] + 2 * M.ray_dist(ref, ref1)
    ctx.check(e4 <= 2.5 * e1 / 4 ** 4 + fl, "rk4-order", "errors %.3g, %.3g of one and of four RK4 steps over %.3g (reference uncertain by %.2g)" % (e1, e4, h, fl))
    # a fourth-order step is far more accurate than the length of the path it covers
    d = M.ray_dist(g["psi"], ref)
    ctx.check(e1 <= 0.2 * d + fl, "rk4-error", "error %.3g over a path of length %.3g" % (e1, d))
    for a, b in zip(bulk, list(s.uni_l.A) + list(s.uni_r.A)):
        ctx.check(np.array_equal(a, b), "bulk-changed", "take_step_RK4 changed a bulk tensor")
    ctx.simtime += 2 * h
    st["fresh"], st["canon"] = True, False
    st["exact_bulk"] = False


def do_order(w, op, rs, st):
    """Imaginary time lowers the energy relative to the bulk, real time keeps it (to the order of the method)."""
    ctx, s = w.ctx, w.s
    g = ready(w, st, op["seed"])
    if g is None:
        return
    t2 = nla.norm(g["t1"].ravel()) ** 2
    h = 0.02 * g["ms"] / g["wn"]
    dE0 = complex(s.dH_expect).real
    real = op["re"]
    ctx.must("take_step", lambda: s.take_step(h * (1j if real else 1.0)), seed=op["seed"])
    ctx.must("update", lambda: s.update(), seed=op["seed"])
    d = complex(s.dH_expect).real - dE0
    bound = 50 * h ** 2 * g["wn"] ** 3 / g["ms"] ** 2 + 1e-9 * g["wn"]
    ctx.close(d, 0.0 if real else -2 * h * t2, bound, "energy-change", "change of dH_expect over a %s step %.3g" % ("real-time" if real else "imaginary-time", h))
    if not real and h * t2 > 1e-6:
        ctx.check(d < 0, "energy-change", "energy rises by %.3g in imaginary time" % d)
    st["exact_bulk"] = False


def do_dynexp(w, op, rs, st):
    ctx, s = w.ctx, w.s
    g = ready(w, st, op["seed"])
    if g is None:
        return
    psi, T, sd = g["psi"], g["T"], g["sd"]
    D = [int(d) for d in s.D]
    Dm = rs.choice([2, 3, 4, 16])
    dD = rs.choice([1, 2, 16])
    qs, N = T.qs, s.N
    v = (g["Hp"] - g["E"] * psi)
    add = np.zeros(psi.size, dtype=complex)
    amb = False
    expD = list(D)
    for n in range(1, N):
        a, b = int(np.prod(qs[:n])), int(np.prod(qs[n + 2:]))
        ql, qr = T.ql[n], T.qr[n + 1]
        x = v.reshape(a, -1, b)
        x = np.einsum('ab,bsc->asc', ql @ ql.conj().T, x) @ (qr.conj() @ qr.T)
        m = x.reshape(a * qs[n], qs[n + 1] * b)
        m = m - T.ql[n + 1] @ (T.ql[n + 1].conj().T @ m)
        m = m - (m @ T.qr[n].conj()) @ T.qr[n].T
        u, sv, vh = nla.svd(m, full_matrices=False)
        nz = int(np.sum(sv > 1e-8))
        amb = amb or bool(np.any((sv > 1e-12) & (sv < 1e-6)))
        inc = max(0, min(nz, dD, Dm - D[n]))
        if 0 < inc < nz and sv[inc - 1] - sv[inc] < 1e-4:
            amb = True
        expD[n] += inc
        add = add + ((u[:, :inc] * sv[:inc]) @ vh[:inc]).ravel()
    add = add.reshape(psi.shape)
    if amb:
        ctx.probe("expand-ambiguous")
        return
    ph = phase(op, rs)
    A0 = [np.array(s.A[n]) for n in range(1, s.N + 1)]
    bulk = [a.copy() for a in list(s.uni_l.A) + list(s.uni_r.A)]
    errs = []
    for i, h in enumerate((3e-3, 3e-3 / 4)):
        if i:
            for n in range(1, N + 1):
                s.A[n] = A0[n - 1].copy()
            s.D[:] = D
        r = ctx.must("take_step", lambda: s.take_step(ph * h, dynexp=True, dD_max=int(dD), D_max=int(Dm), sv_tol=1e-9), seed=op["seed"])
        got = [int(d) for d in s.D]
        ctx.check(got == expD, "expansion-dimension", "%s -> %s, expected %s (dD_max %d, D_max %d)" % (D, got, expD, dD, Dm))
        shapes(w)
        ctx.check(r is not None and all(int(r[n]) == got[n] - D[n] for n in range(1, N)), "expansion-dimension", "take_step returned %s" % (r,))
        after = sd.scale * M.vec_from_tensors(sd.tensors([np.asarray(s.A[n]) for n in range(1, N + 1)]))
        errs.append(nla.norm((after - (psi - ph * h * (g["t1"] + add))).ravel()))
        ctx.simtime += h
    for a, b in zip(bulk, list(s.uni_l.A) + list(s.uni_r.A)):
        ctx.check(np.array_equal(a, b), "bulk-changed", "take_step(dynexp) changed a bulk tensor")
    sc = (1 + nla.norm(g["Hp"].ravel())) ** 2 / g["ms"] ** 2
    ctx.check(errs[1] <= 2.0 * errs[0] / 16 + 1e-10 / g["ms"], "expansion-first-order", "deviations %s for steps h, h/4" % errs)
    ctx.check(errs[0] <= 30 * (3e-3) ** 2 * sc + 1e-9, "expansion-first-order", "deviation %.3g" % errs[0])
    ctx.probe("expanded" if expD != D else "not-expanded")
    if well(w) < 1e-4:
        raise Abandon("expanded to a nearly rank-deficient state")
    ref = w.sand().rdms()
    ctx.must("update", lambda: s.update(), seed=op["seed"])
    w.same_rdms(ref, 1e-6, "update-changes-state", "update after expansion")
    st.update(fresh=True, canon=True)
    st["exact_bulk"] = False
